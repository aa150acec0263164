From bb5d3850265045c773f827e4a0db9ffda497217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 01/38] fix: adjoint of complex lazy operators is the conjugate
 transpose

---
 emlp/reps/linear_operator_base.py |  4 ++--
 emlp/reps/linear_operators.py     | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..cb151c5 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -727,9 +727,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.conj().T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.conj().T@v
     def to_dense(self):
         return self.A
     def invT(self):
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..f1d0795 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -17,6 +17,10 @@ def densify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
     else: raise NotImplementedError
 
+def adjoint(x):
+    """ Hermitian adjoint (conjugate transpose) of an array or LinearOperator """
+    return x.H if isinstance(x,LinearOperator) else x.conj().T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -48,7 +52,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
         return LazyKron([M.invT() for M in self.Ms])
     def to_dense(self):
@@ -85,7 +89,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([adjoint(Mi) for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -111,7 +115,7 @@ class LazyJVP(LinearOperator):
     def _matvec(self,v):
         return self.vjp(v)
     def _rmatmat(self,v):
-        return self.vjp_T(v)
+        return jnp.conj(self.vjp_T(jnp.conj(v)))
     
 
 class ConcatLazy(LinearOperator):
@@ -128,7 +132,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
-- 
2.43.0


From c96e01d38a21ec766ab699e364b69edda2ef7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 02/38] fix: shape, adjoint and inverse transpose of
 LazyDirectSum and LazyKron

---
 emlp/reps/linear_operators.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index f1d0795..3618ba6 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -21,6 +21,10 @@ def adjoint(x):
     """ Hermitian adjoint (conjugate transpose) of an array or LinearOperator """
     return x.H if isinstance(x,LinearOperator) else x.conj().T
 
+def inverse_transpose(x):
+    """ Inverse transpose of an array or LinearOperator """
+    return x.invT() if isinstance(x,LinearOperator) else jnp.linalg.inv(x).T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -54,7 +58,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([inverse_transpose(M) for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -141,8 +145,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
+                      sum(Mi.shape[1]*c for Mi,c in zip(Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -153,9 +157,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([adjoint(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([inverse_transpose(M) for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 852cb8fbd1dcf7f8e6963a850fd89cfd031dd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 03/38] fix: adjoint of Rot90

---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 3618ba6..0508161 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -237,5 +237,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
         return self
\ No newline at end of file
-- 
2.43.0


From 606f3be9710d9aaabba5f24e06389e29db744aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 04/38] fix: SwapMatrix uses an array update that exists in
 current jax

---
 emlp/reps/linear_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 0508161..b2cb59a 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -218,8 +218,8 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
-        return V
+        V = jnp.asarray(V)
+        return V.at[self.swaprows].set(V[self.swaprows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
-- 
2.43.0


From b684baed30ee9e814dac3196e7e79949c0079ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 05/38] fix: transposed ConcatLazy and LazyJVP operators can
 act on vectors

---
 emlp/reps/linear_operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index b2cb59a..5a3a688 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -120,7 +120,8 @@ class LazyJVP(LinearOperator):
         return self.vjp(v)
     def _rmatmat(self,v):
         return jnp.conj(self.vjp_T(jnp.conj(v)))
-    
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
 
 class ConcatLazy(LinearOperator):
     """ Produces a linear operator equivalent to concatenating
@@ -137,6 +138,8 @@ class ConcatLazy(LinearOperator):
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
         return sum([adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
-- 
2.43.0


From eacf1745656da50bd64264b1e5351e3f9359fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 06/38] fix: LazyKron with a zero dimensional factor can be
 applied

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 5a3a688..0c6e090 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -49,10 +49,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if v.ndim>1 else 1)
         for i,M in enumerate(self.Ms):
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
@@ -84,11 +84,11 @@ class LazyKronsum(LinearOperator):
         return self._matmat(v).reshape(-1)
 
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if v.ndim>1 else 1)
         out = 0*ev
         for i,M in enumerate(self.Ms):
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             out += jnp.moveaxis(Mev_front,0,i)
         return out.reshape(self.shape[0],ev.shape[-1])
         
-- 
2.43.0


From df6a39a06cb52cfbbc29db86e12413c5536a8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 07/38] fix: inverse transpose of scaled and summed operators

---
 emlp/reps/linear_operator_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index cb151c5..26c875a 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -555,8 +555,7 @@ class _SumLinearOperator(LinearOperator):
         return A.H + B.H
 
     def invT(self):
-        A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +622,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
-- 
2.43.0


From ab7db1d46ab349cfa7878abcfffd18efedc18977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 08/38] fix: SO(1), SL(1), SU(1) and S(1) can be constructed

---
 emlp/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..8e81acf 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -142,6 +142,7 @@ class Trivial(Group):
 class SO(Group):
     """ The special orthogonal group SO(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros(((n*(n-1))//2,n,n))
         k=0
         for i in range(n):
@@ -259,6 +260,7 @@ class Z(Group):
 class S(Group): #The permutation group
     r""" The permutation group S_n with an n dimensional regular representation."""
     def __init__(self,n):
+        self.d = n
         # Here we choose n-1 generators consisting of swaps between the first element
         # and every other element
         perms = np.arange(n)[None]+np.zeros((n-1,1)).astype(int)
@@ -275,6 +277,7 @@ class S(Group): #The permutation group
 class SL(Group):
     """ The special linear group SL(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros((n*n-1,n,n))
         k=0
         for i in range(n):
@@ -327,7 +330,7 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
+        self.d = n
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From c73a6070857e91f8358db6985c7ab1f53bf389c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 09/38] fix: embeddings of a group along different dimensions
 are different groups

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 8e81acf..0d7a6bd 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -440,7 +440,7 @@ class Embed(Group):
         self.discrete_generators += np.eye(d)
         self.lie_algebra[:,slice,slice] = G.lie_algebra
         self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        self.name = f"{G}_R{d}{list(range(d)[slice])}"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 3c0808ec0a86d36e0124548cd7e71797c95bc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 10/38] fix: Embed supports complex groups and groups with lazy
 generators

---
 emlp/groups.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 0d7a6bd..e925180 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -435,11 +435,16 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
+        lie_algebra = [np.asarray(A@jnp.eye(G.d)) for A in G.lie_algebra]
+        discrete_generators = [np.asarray(h@jnp.eye(G.d)) for h in G.discrete_generators]
+        dtype = np.result_type(float,*lie_algebra,*discrete_generators)
+        self.lie_algebra = np.zeros((len(lie_algebra),d,d),dtype)
+        self.discrete_generators = np.zeros((len(discrete_generators),d,d),dtype)
         self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
+        for i,A in enumerate(lie_algebra):
+            self.lie_algebra[i,slice,slice] = A
+        for i,h in enumerate(discrete_generators):
+            self.discrete_generators[i,slice,slice] = h
         self.name = f"{G}_R{d}{list(range(d)[slice])}"
         super().__init__()
    
-- 
2.43.0


From 6493935d7b09bb28d44e98d893d23c6e89907761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 11/38] fix: separate the arguments of a group in its name

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index e925180..7e54e44 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From d195aa54d5604dc586698f6457f7220dfb2b44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 12/38] fix: embeddings and products of groups without
 generators know their dimension

---
 emlp/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 7e54e44..1aa5e97 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -435,6 +435,7 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
+        self.d = d
         lie_algebra = [np.asarray(A@jnp.eye(G.d)) for A in G.lie_algebra]
         discrete_generators = [np.asarray(h@jnp.eye(G.d)) for h in G.discrete_generators]
         dtype = np.result_type(float,*lie_algebra,*discrete_generators)
@@ -469,6 +470,7 @@ def DkeR3(k):
 
 class DirectProduct(Group):
     def __init__(self,G1,G2):
+        self.d = G1.d*G2.d
         I1,I2 = I(G1.d),I(G2.d)
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
-- 
2.43.0


From 7d570df35ab7faac18330b2e052b6438a25126da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 13/38] fix: default Lie algebra representation for complex and
 lazy generators

---
 emlp/reps/representation.py | 997 ++++++++++++++++++------------------
 1 file changed, 499 insertions(+), 498 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..f306944 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -1,499 +1,500 @@
-import numpy as np
-import jax
-import jax.numpy as jnp
-from jax import jit, device_put,vmap
-import optax
-from sklearn.cluster import KMeans
-from tqdm.auto import tqdm
-from .linear_operator_base import LinearOperator, Lazy
-from .linear_operators import ConcatLazy, I, lazify, densify, LazyJVP
-import logging
-import matplotlib.pyplot as plt
-from functools import reduce
-from emlp.utils import export
-
-from plum import dispatch
-import emlp.reps
-#TODO: add rep,v = flatten({'Scalar':..., 'Vector':...,}), to_dict(rep,vector) returns {'Scalar':..., 'Vector':...,}
-#TODO and simpler rep = flatten({Scalar:2,Vector:10,...}),
-# Do we even want + operator to implement non canonical orderings?
-
-__all__ = ["V","Vector", "Scalar"]
-
-@export
-class Rep(object):
-    r""" The base Representation class. Representation objects formalize the vector space V
-        on which the group acts, the group representation matrix ρ(g), and the Lie Algebra
-        representation dρ(A) in a single object. Representations act as types for vectors coming
-        from V. These types can be manipulated and transformed with the built in operators
-        ⊕,⊗,dual, as well as incorporating custom representations. Rep objects should
-        be immutable.
-
-        At minimum, new representations need to implement ``rho``, ``__str__``."""
-        
-    is_permutation=False
-
-    def rho(self,M):
-        """ Group representation of the matrix M of shape (d,d)"""
-        raise NotImplementedError
-        
-    def drho(self,A): 
-        """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
-        return LazyJVP(self.rho,In,A)
-
-    def __call__(self,G):
-        """ Instantiate (non concrete) representation with a given symmetry group"""
-        raise NotImplementedError
-
-    def __str__(self): raise NotImplementedError 
-    #TODO: separate __repr__ and __str__?
-    def __repr__(self): return str(self)
-    
-    
-    def __eq__(self,other):
-        if type(self)!=type(other): return False
-        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        d2 = tuple([(k,v) for k,v in other.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        return d1==d2
-    def __hash__(self):
-        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        return hash((type(self),d1))
-
-    def size(self): 
-        """ Dimension dim(V) of the representation """
-        if hasattr(self,'_size'):
-            return self._size
-        elif self.concrete and hasattr(self,"G"):
-            self._size = self.rho(self.G.sample()).shape[-1]
-            return self._size
-        else: raise NotImplementedError
-
-    def canonicalize(self): 
-        """ An optional method to convert the representation into a canonical form
-            in order to reuse equivalent solutions in the solver. Should return
-            both the canonically ordered representation, along with a permutation
-            which can be applied to vectors of the current representation to achieve
-            that ordering. """
-        return self, np.arange(self.size()) # return canonicalized rep
-    
-    def rho_dense(self,M):
-        """ A convenience function which returns rho(M) as a dense matrix."""
-        return densify(self.rho(M))
-    def drho_dense(self,A):
-        """ A convenience function which returns drho(A) as a dense matrix."""
-        return densify(self.drho(A))
-    
-    def constraint_matrix(self):
-        """ Constructs the equivariance constrant matrix (lazily) by concatenating
-        the constraints (ρ(hᵢ)-I) for i=1,...M and dρ(Aₖ) for k=1,..,D from the generators
-        of the symmetry group. """
-        n = self.size()
-        constraints = []
-        constraints.extend([lazify(self.rho(h))-I(n) for h in self.G.discrete_generators])
-        constraints.extend([lazify(self.drho(A)) for A in self.G.lie_algebra])
-        return ConcatLazy(constraints) if constraints else lazify(jnp.zeros((1,n)))
-
-    solcache = {}
-    def equivariant_basis(self):  
-        """ Computes the equivariant solution basis for the given representation of size N.
-            Canonicalizes problems and caches solutions for reuse. Output [Q (N,r)] """
-        if self==Scalar: return jnp.ones((1,1))
-        canon_rep,perm = self.canonicalize()
-        invperm = np.argsort(perm)
-        if canon_rep not in self.solcache:
-            logging.info(f"{canon_rep} cache miss")
-            logging.info(f"Solving basis for {self}"+(f", for G={self.G}" if hasattr(self,"G") else ""))
-            #if isinstance(group,Trivial): return np.eye(size(rank,group.d))
-            C_lazy = canon_rep.constraint_matrix()
-            if C_lazy.shape[0]*C_lazy.shape[1]>3e7: #Too large to use SVD
-                result = krylov_constraint_solve(C_lazy)
-            else:
-                C_dense = C_lazy.to_dense()
-                result = orthogonal_complement(C_dense)
-            self.solcache[canon_rep]=result
-        return self.solcache[canon_rep][invperm]
-    
-    def equivariant_projector(self):
-        """ Computes the (lazy) projection matrix P=QQᵀ that projects to the equivariant basis."""
-        Q = self.equivariant_basis()
-        Q_lazy = lazify(Q)
-        P = Q_lazy@Q_lazy.H
-        return P
-
-    @property
-    def concrete(self):
-        return hasattr(self,"G") and self.G is not None
-        # if hasattr(self,"_concrete"): return self._concrete
-        # else:
-        #     return hasattr(self,"G") and self.G is not None
-
-    def __add__(self, other):
-        """ Direct sum (⊕) of representations. """
-        if isinstance(other,int):
-            if other==0: return self
-            else: return self+other*Scalar
-        elif emlp.reps.product_sum_reps.both_concrete(self,other):
-            return emlp.reps.product_sum_reps.SumRep(self,other)
-        else:
-            return emlp.reps.product_sum_reps.DeferredSumRep(self,other)
-
-    def __radd__(self,other):
-        if isinstance(other,int): 
-            if other==0: return self
-            else: return other*Scalar+self
-        else: return NotImplemented
-        
-    def __mul__(self,other):
-        """ Tensor sum (⊗) of representations. """
-        return mul_reps(self,other)
-            
-    def __rmul__(self,other):
-        return mul_reps(other,self)
-
-    def __pow__(self,other):
-        """ Iterated tensor product. """
-        assert isinstance(other,int), f"Power only supported for integers, not {type(other)}"
-        assert other>=0, f"Negative powers {other} not supported"
-        return reduce(lambda a,b:a*b,other*[self],Scalar)
-    def __rshift__(self,other):
-        """ Linear maps from self -> other """
-        return other*self.T
-    def __lshift__(self,other):
-        """ Linear maps from other -> self """
-        return self*other.T
-    def __lt__(self, other):
-        """ less than defined to disambiguate ordering multiple different representations.
-            Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
-    def __mod__(self,other): # Wreath product
-        """ Wreath product of representations (Not yet implemented)"""
-        raise NotImplementedError
-    @property
-    def T(self):
-        """ Dual representation V*, rho*, drho*."""
-        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal: return self
-        return Dual(self)
-
-
-@dispatch
-def mul_reps(ra,rb:int):
-    if rb==1: return ra
-    if rb==0: return 0
-    if (not hasattr(ra,'concrete')) or ra.concrete:
-        return emlp.reps.product_sum_reps.SumRep(*(rb*[ra]))
-    else:
-        return emlp.reps.product_sum_reps.DeferredSumRep(*(rb*[ra]))
-
-@dispatch
-def mul_reps(ra:int,rb):
-    return mul_reps(rb,ra)
-
-# Continued with non int cases in product_sum_reps.py
-
-# A possible
-class ScalarRep(Rep):
-    def __init__(self,G=None):
-        self.G=G
-        self.is_permutation = True
-    def __call__(self,G):
-        self.G=G
-        return self
-    def size(self):
-        return 1
-    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-    def __str__(self):
-        return "V⁰"
-    @property
-    def T(self):
-        return self
-    def rho(self,M):
-        return jnp.eye(1)
-    def drho(self,M):
-        return 0*jnp.eye(1)
-    def __hash__(self):
-        return 0
-    def __eq__(self,other):
-        return isinstance(other,ScalarRep)
-    def __mul__(self,other):
-        if isinstance(other,int): return super().__mul__(other)
-        return other
-    def __rmul__(self,other):
-        if isinstance(other,int): return super().__rmul__(other)
-        return other
-    @property
-    def concrete(self):
-        return True
-
-class Base(Rep):
-    """ Base representation V of a group."""
-    def __init__(self,G=None):
-        self.G=G
-        if G is not None: self.is_permutation = G.is_permutation
-    def __call__(self,G):
-        return self.__class__(G)
-    def rho(self,M):
-        if hasattr(self,'G') and isinstance(M,dict): M=M[self.G]
-        return M
-    def drho(self,A):
-        if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
-        return A
-    def size(self):
-        assert self.G is not None, f"must know G to find size for rep={self}"
-        return self.G.d
-    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-    def __str__(self):
-        return "V"# +(f"_{self.G}" if self.G is not None else "")
-    
-    def __hash__(self):
-        return hash((type(self),self.G))
-    def __eq__(self,other):
-        return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
-    # @property
-    # def T(self):
-    #     return Dual(self.G)
-
-class Dual(Rep):
-    def __init__(self,rep):
-        self.rep = rep
-        self.G=rep.G
-        if hasattr(rep,"is_permutation"): self.is_permutation = rep.is_permutation
-    def __call__(self,G):
-        return self.rep(G).T
-    def rho(self,M):
-        rho = self.rep.rho(M)
-        rhoinvT = rho.invT() if isinstance(rho,LinearOperator) else jnp.linalg.inv(rho).T
-        return rhoinvT
-    def drho(self,A):
-        return -self.rep.drho(A).T
-    def __str__(self):
-        return str(self.rep)+"*"
-    def __repr__(self): return str(self)
-    @property
-    def T(self):
-        return self.rep
-    def __eq__(self,other):
-        return type(other)==type(self) and self.rep==other.rep
-    def __hash__(self):
-        return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
-    def size(self):
-        return self.rep.size()
-        
-V=Vector= Base()  #: Alias V or Vector for an instance of the Base representation of a group
-
-Scalar = ScalarRep()#: An instance of the Scalar representation, equivalent to V**0
-
-@export
-def T(p,q=0,G=None):
-    """ A convenience function for creating rank (p,q) tensors."""
-    return (V**p*V.T**q)(G)
-
-def orthogonal_complement(proj):
-    """ Computes the orthogonal complement to a given matrix proj"""
-    U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
-    rank = (S>1e-5).sum()
-    return VH[rank:].conj().T
-
-def krylov_constraint_solve(C,tol=1e-5):
-    """ Computes the solution basis Q for the linear constraint CQ=0  and QᵀQ=I
-        up to specified tolerance with C expressed as a LinearOperator. """
-    r = 5
-    if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
-    found_rank=5
-    while found_rank==r:
-        r *= 2 # Iterative doubling of rank until large enough to include the full solution space
-        if C.shape[0]*r>2e9:
-            logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
-            break
-        Q = krylov_constraint_solve_upto_r(C,r,tol)
-        found_rank = Q.shape[-1]
-    return Q
-
-def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
-    """ Iterative routine to compute the solution basis to the constraint CQ=0 and QᵀQ=I
-        up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
-        objective |CQ|^2, which provably converges at an exponential rate."""
-    W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
-    W = device_put(W)
-    opt_init,opt_update = optax.sgd(lr,.9)
-    opt_state = opt_init(W)  # init stats
-
-    def loss(W):
-        return (jnp.absolute(C@W)**2).sum()/2 # added absolute for complex support
-
-    loss_and_grad = jit(jax.value_and_grad(loss))
-    # setup progress bar
-    pbar = tqdm(total=100,desc=f'Krylov Solving for Equivariant Subspace r<={r}',
-    bar_format="{l_bar}{bar}| {n:.3g}/{total_fmt} [{elapsed}<{remaining}, {rate_fmt}{postfix}]")
-    prog_val = 0
-    lstart, _ = loss_and_grad(W)
-    
-    for i in range(20000):
-        
-        lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
-        W = optax.apply_updates(W, updates)
-        # update progress bar
-        progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-        progress = min(100-prog_val,progress)
-        if progress>0:
-            prog_val += progress
-            pbar.update(progress)
-
-        if jnp.sqrt(lossval) <tol: # check convergence condition
-            pbar.close()
-            break # has converged
-        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
-            logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
-            if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
-            return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
-    else: raise ConvergenceError("Failed to converge.")
-    # Orthogonalize solution at the end
-    U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
-    # Would like to do economy SVD here (to not have the unecessary O(n^2) memory cost) 
-    # but this is not supported in numpy (or Jax) unfortunately.
-    rank = (S>10*tol).sum()
-    Q = device_put(U[:,:rank])
-    # final_L
-    final_L = loss_and_grad(Q)[0]
-    if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
-    assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
-        above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
-    #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-    return Q
-
-class ConvergenceError(Exception): pass
-
-@export
-def sparsify_basis(Q,lr=1e-2): #(n,r)
-    """ Convenience function to attempt to sparsify a given basis by applying an orthogonal transformation
-        W, Q' = QW where Q' has only 1s, 0s and -1s. Notably this method does not have the same convergence
-        gauruntees of krylov_constraint_solve and can fail (even silently). Intended to be used only for
-        visualization purposes, use at your own risk. """
-    W = np.random.randn(Q.shape[-1],Q.shape[-1])
-    W,_ = np.linalg.qr(W)
-    W = device_put(W.astype(jnp.float32))
-    opt_init,opt_update = optax.adam(lr)#optax.sgd(1e2,.9)#optax.adam(lr)#optax.sgd(3e-3,.9)#optax.adam(lr)
-    opt_update = jit(opt_update)
-    opt_state = opt_init(W)  # init stats
-
-    def loss(W):
-        return jnp.abs(Q@W.T).mean() + .1*(jnp.abs(W.T@W-jnp.eye(W.shape[0]))).mean()+.01*jax.numpy.linalg.slogdet(W)[1]**2
-
-    loss_and_grad = jit(jax.value_and_grad(loss))
-
-    for i in tqdm(range(3000),desc=f'sparsifying basis'):
-        lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
-        W = optax.apply_updates(W, updates)
-        #W,_ = np.linalg.qr(W)
-        if lossval>1e2 and i>100: # Solve diverged due to too high learning rate
-            logging.warning(f"basis sparsification diverged, trying lower learning rate {lr/3:.2e}")
-            return sparsify_basis(Q,lr=lr/3)
-    Q = np.copy(Q@W.T)
-    Q[np.abs(Q)<1e-2]=0
-    Q[np.abs(Q)>1e-2] /= np.abs(Q[np.abs(Q)>1e-2])
-    A = Q@(1+np.arange(Q.shape[-1]))
-    if len(np.unique(np.abs(A)))!=Q.shape[-1]+1 and len(np.unique(np.abs(A)))!=Q.shape[-1]:
-        logging.error(f"Basis elems did not separate: found only {len(np.unique(np.abs(A)))}/{Q.shape[-1]}")
-        #raise ConvergenceError(f"Basis elems did not separate: found only {len(np.unique(A))}/{Q.shape[-1]}")
-    return Q
-
-#@partial(jit,static_argnums=(0,1))
-@export
-def bilinear_weights(out_rep,in_rep):
-    #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
-    inv_perm = np.argsort(W_perm)
-    mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
-    W_multiplicities = W_rep.reps
-    x_multiplicities = x_rep.reps
-    x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-    nelems = lambda nx,rep: min(nx,rep.size())
-    active_dims = sum([W_multiplicities.get(rep,0)*nelems(n,rep) for rep,n in x_multiplicities.items()])
-    reduced_indices_dict = {rep:ids[np.random.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
-                                for rep,ids in x_rep.as_dict(np.arange(x_rep.size())).items()}
-    # Apply the projections for each rank, concatenate, and permute back to orig rank order
-    @jit
-    def lazy_projection(params,x): # (r,), (*c) #TODO: find out why backwards of this function is so slow
-        bshape = x.shape[:-1]
-        x = x.reshape(-1,x.shape[-1])
-        bs = x.shape[0]
-        i=0
-        Ws = []
-        for rep, W_mult in W_multiplicities.items():
-            if rep not in x_multiplicities:
-                Ws.append(jnp.zeros((bs,W_mult*rep.size())))
-                continue
-            x_mult = x_multiplicities[rep]
-            n = nelems(x_mult,rep)
-            i_end = i+W_mult*n
-            bids =  reduced_indices_dict[rep]
-            bilinear_params = params[i:i_end].reshape(W_mult,n) # bs,nK-> (nK,bs)
-            i = i_end  # (bs,W_mult,d^r) = (W_mult,n)@(n,d^r,bs)
-            bilinear_elems = bilinear_params@x[...,bids].T.reshape(n,rep.size()*bs)
-            bilinear_elems = bilinear_elems.reshape(W_mult*rep.size(),bs).T
-            Ws.append(bilinear_elems)
-        Ws = jnp.concatenate(Ws,axis=-1) #concatenate over rep axis
-        return Ws[...,inv_perm].reshape(*bshape,*mat_shape) # reorder to original rank ordering
-    return active_dims,lazy_projection
-        
-# @jit
-# def mul_part(bparams,x,bids):
-#     b = prod(x.shape[:-1])
-#     return (bparams@x[...,bids].T.reshape(bparams.shape[-1],-1)).reshape(-1,b).T
-
-@export
-def vis(repin,repout,cluster=True):
-    """ A function to visualize the basis of equivariant maps repin>>repout
-        as an image. Only use cluster=True if you know Pv will only have
-        r distinct values (true for G<S(n) but not true for many continuous groups)."""
-    rep = (repin>>repout)
-    P = rep.equivariant_projector() # compute the equivariant basis
-    Q = rep.equivariant_basis()
-    v = np.random.randn(P.shape[1])  # sample random vector
-    v = np.round(P@v,decimals=4)  # project onto equivariant subspace (and round)
-    if cluster: # cluster nearby values for better color separation in plot
-        v = KMeans(n_clusters=Q.shape[-1]).fit(v.reshape(-1,1)).labels_
-    plt.imshow(v.reshape(repout.size(),repin.size()))
-    plt.axis('off')
-
-
-def scale_adjusted_rel_error(t1,t2,g):
-    error = jnp.sqrt(jnp.mean(jnp.abs(t1-t2)**2))
-    tscale = jnp.sqrt(jnp.mean(jnp.abs(t1)**2)) + jnp.sqrt(jnp.mean(jnp.abs(t2)**2))
-    gscale = jnp.sqrt(jnp.mean(jnp.abs(g-jnp.eye(g.shape[-1]))**2))
-    scale = jnp.maximum(tscale,gscale)
-    return error/jnp.maximum(scale,1e-7)
-
-@export
-def equivariance_error(W,repin,repout,G):
-    """ Computes the equivariance relative error rel_err(Wρ₁(g),ρ₂(g)W)
-        of the matrix W (dim(repout),dim(repin)) [or basis Q: (dim(repout)xdim(repin), r)]
-        according to the input and output representations and group G. """
-    W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]
-
-    # Sample 5 group elements and verify the equivariance for each
-    gs = G.samples(5)
-    ring = vmap(repin.rho_dense)(gs)[:,None]
-    routg = vmap(repout.rho_dense)(gs)[:,None]
-    equiv_err = scale_adjusted_rel_error(W@ring,routg@W,gs)
-    return equiv_err
-
+import numpy as np
+import jax
+import jax.numpy as jnp
+from jax import jit, device_put,vmap
+import optax
+from sklearn.cluster import KMeans
+from tqdm.auto import tqdm
+from .linear_operator_base import LinearOperator, Lazy
+from .linear_operators import ConcatLazy, I, lazify, densify, LazyJVP
+import logging
+import matplotlib.pyplot as plt
+from functools import reduce
+from emlp.utils import export
+
+from plum import dispatch
+import emlp.reps
+#TODO: add rep,v = flatten({'Scalar':..., 'Vector':...,}), to_dict(rep,vector) returns {'Scalar':..., 'Vector':...,}
+#TODO and simpler rep = flatten({Scalar:2,Vector:10,...}),
+# Do we even want + operator to implement non canonical orderings?
+
+__all__ = ["V","Vector", "Scalar"]
+
+@export
+class Rep(object):
+    r""" The base Representation class. Representation objects formalize the vector space V
+        on which the group acts, the group representation matrix ρ(g), and the Lie Algebra
+        representation dρ(A) in a single object. Representations act as types for vectors coming
+        from V. These types can be manipulated and transformed with the built in operators
+        ⊕,⊗,dual, as well as incorporating custom representations. Rep objects should
+        be immutable.
+
+        At minimum, new representations need to implement ``rho``, ``__str__``."""
+        
+    is_permutation=False
+
+    def rho(self,M):
+        """ Group representation of the matrix M of shape (d,d)"""
+        raise NotImplementedError
+        
+    def drho(self,A): 
+        """ Lie Algebra representation of the matrix A of shape (d,d)"""
+        A = jnp.asarray(densify(A))
+        In = jnp.eye(A.shape[0],dtype=A.dtype)
+        return LazyJVP(self.rho,In,A)
+
+    def __call__(self,G):
+        """ Instantiate (non concrete) representation with a given symmetry group"""
+        raise NotImplementedError
+
+    def __str__(self): raise NotImplementedError 
+    #TODO: separate __repr__ and __str__?
+    def __repr__(self): return str(self)
+    
+    
+    def __eq__(self,other):
+        if type(self)!=type(other): return False
+        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        d2 = tuple([(k,v) for k,v in other.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        return d1==d2
+    def __hash__(self):
+        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        return hash((type(self),d1))
+
+    def size(self): 
+        """ Dimension dim(V) of the representation """
+        if hasattr(self,'_size'):
+            return self._size
+        elif self.concrete and hasattr(self,"G"):
+            self._size = self.rho(self.G.sample()).shape[-1]
+            return self._size
+        else: raise NotImplementedError
+
+    def canonicalize(self): 
+        """ An optional method to convert the representation into a canonical form
+            in order to reuse equivalent solutions in the solver. Should return
+            both the canonically ordered representation, along with a permutation
+            which can be applied to vectors of the current representation to achieve
+            that ordering. """
+        return self, np.arange(self.size()) # return canonicalized rep
+    
+    def rho_dense(self,M):
+        """ A convenience function which returns rho(M) as a dense matrix."""
+        return densify(self.rho(M))
+    def drho_dense(self,A):
+        """ A convenience function which returns drho(A) as a dense matrix."""
+        return densify(self.drho(A))
+    
+    def constraint_matrix(self):
+        """ Constructs the equivariance constrant matrix (lazily) by concatenating
+        the constraints (ρ(hᵢ)-I) for i=1,...M and dρ(Aₖ) for k=1,..,D from the generators
+        of the symmetry group. """
+        n = self.size()
+        constraints = []
+        constraints.extend([lazify(self.rho(h))-I(n) for h in self.G.discrete_generators])
+        constraints.extend([lazify(self.drho(A)) for A in self.G.lie_algebra])
+        return ConcatLazy(constraints) if constraints else lazify(jnp.zeros((1,n)))
+
+    solcache = {}
+    def equivariant_basis(self):  
+        """ Computes the equivariant solution basis for the given representation of size N.
+            Canonicalizes problems and caches solutions for reuse. Output [Q (N,r)] """
+        if self==Scalar: return jnp.ones((1,1))
+        canon_rep,perm = self.canonicalize()
+        invperm = np.argsort(perm)
+        if canon_rep not in self.solcache:
+            logging.info(f"{canon_rep} cache miss")
+            logging.info(f"Solving basis for {self}"+(f", for G={self.G}" if hasattr(self,"G") else ""))
+            #if isinstance(group,Trivial): return np.eye(size(rank,group.d))
+            C_lazy = canon_rep.constraint_matrix()
+            if C_lazy.shape[0]*C_lazy.shape[1]>3e7: #Too large to use SVD
+                result = krylov_constraint_solve(C_lazy)
+            else:
+                C_dense = C_lazy.to_dense()
+                result = orthogonal_complement(C_dense)
+            self.solcache[canon_rep]=result
+        return self.solcache[canon_rep][invperm]
+    
+    def equivariant_projector(self):
+        """ Computes the (lazy) projection matrix P=QQᵀ that projects to the equivariant basis."""
+        Q = self.equivariant_basis()
+        Q_lazy = lazify(Q)
+        P = Q_lazy@Q_lazy.H
+        return P
+
+    @property
+    def concrete(self):
+        return hasattr(self,"G") and self.G is not None
+        # if hasattr(self,"_concrete"): return self._concrete
+        # else:
+        #     return hasattr(self,"G") and self.G is not None
+
+    def __add__(self, other):
+        """ Direct sum (⊕) of representations. """
+        if isinstance(other,int):
+            if other==0: return self
+            else: return self+other*Scalar
+        elif emlp.reps.product_sum_reps.both_concrete(self,other):
+            return emlp.reps.product_sum_reps.SumRep(self,other)
+        else:
+            return emlp.reps.product_sum_reps.DeferredSumRep(self,other)
+
+    def __radd__(self,other):
+        if isinstance(other,int): 
+            if other==0: return self
+            else: return other*Scalar+self
+        else: return NotImplemented
+        
+    def __mul__(self,other):
+        """ Tensor sum (⊗) of representations. """
+        return mul_reps(self,other)
+            
+    def __rmul__(self,other):
+        return mul_reps(other,self)
+
+    def __pow__(self,other):
+        """ Iterated tensor product. """
+        assert isinstance(other,int), f"Power only supported for integers, not {type(other)}"
+        assert other>=0, f"Negative powers {other} not supported"
+        return reduce(lambda a,b:a*b,other*[self],Scalar)
+    def __rshift__(self,other):
+        """ Linear maps from self -> other """
+        return other*self.T
+    def __lshift__(self,other):
+        """ Linear maps from other -> self """
+        return self*other.T
+    def __lt__(self, other):
+        """ less than defined to disambiguate ordering multiple different representations.
+            Canonical ordering is determined first by Group, then by size, then by hash"""
+        if other==Scalar: return False
+        try: 
+            if self.G<other.G: return True
+            if self.G>other.G: return False
+        except (AttributeError,TypeError): pass
+        if self.size()<other.size(): return True
+        if self.size()>other.size(): return False
+        return hash(self) < hash(other) #For sorting purposes only
+    def __mod__(self,other): # Wreath product
+        """ Wreath product of representations (Not yet implemented)"""
+        raise NotImplementedError
+    @property
+    def T(self):
+        """ Dual representation V*, rho*, drho*."""
+        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal: return self
+        return Dual(self)
+
+
+@dispatch
+def mul_reps(ra,rb:int):
+    if rb==1: return ra
+    if rb==0: return 0
+    if (not hasattr(ra,'concrete')) or ra.concrete:
+        return emlp.reps.product_sum_reps.SumRep(*(rb*[ra]))
+    else:
+        return emlp.reps.product_sum_reps.DeferredSumRep(*(rb*[ra]))
+
+@dispatch
+def mul_reps(ra:int,rb):
+    return mul_reps(rb,ra)
+
+# Continued with non int cases in product_sum_reps.py
+
+# A possible
+class ScalarRep(Rep):
+    def __init__(self,G=None):
+        self.G=G
+        self.is_permutation = True
+    def __call__(self,G):
+        self.G=G
+        return self
+    def size(self):
+        return 1
+    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
+    def __str__(self):
+        return "V⁰"
+    @property
+    def T(self):
+        return self
+    def rho(self,M):
+        return jnp.eye(1)
+    def drho(self,M):
+        return 0*jnp.eye(1)
+    def __hash__(self):
+        return 0
+    def __eq__(self,other):
+        return isinstance(other,ScalarRep)
+    def __mul__(self,other):
+        if isinstance(other,int): return super().__mul__(other)
+        return other
+    def __rmul__(self,other):
+        if isinstance(other,int): return super().__rmul__(other)
+        return other
+    @property
+    def concrete(self):
+        return True
+
+class Base(Rep):
+    """ Base representation V of a group."""
+    def __init__(self,G=None):
+        self.G=G
+        if G is not None: self.is_permutation = G.is_permutation
+    def __call__(self,G):
+        return self.__class__(G)
+    def rho(self,M):
+        if hasattr(self,'G') and isinstance(M,dict): M=M[self.G]
+        return M
+    def drho(self,A):
+        if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
+        return A
+    def size(self):
+        assert self.G is not None, f"must know G to find size for rep={self}"
+        return self.G.d
+    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
+    def __str__(self):
+        return "V"# +(f"_{self.G}" if self.G is not None else "")
+    
+    def __hash__(self):
+        return hash((type(self),self.G))
+    def __eq__(self,other):
+        return type(other)==type(self) and self.G==other.G
+    def __lt__(self,other):
+        if isinstance(other,Dual): return True
+        return super().__lt__(other)
+    # @property
+    # def T(self):
+    #     return Dual(self.G)
+
+class Dual(Rep):
+    def __init__(self,rep):
+        self.rep = rep
+        self.G=rep.G
+        if hasattr(rep,"is_permutation"): self.is_permutation = rep.is_permutation
+    def __call__(self,G):
+        return self.rep(G).T
+    def rho(self,M):
+        rho = self.rep.rho(M)
+        rhoinvT = rho.invT() if isinstance(rho,LinearOperator) else jnp.linalg.inv(rho).T
+        return rhoinvT
+    def drho(self,A):
+        return -self.rep.drho(A).T
+    def __str__(self):
+        return str(self.rep)+"*"
+    def __repr__(self): return str(self)
+    @property
+    def T(self):
+        return self.rep
+    def __eq__(self,other):
+        return type(other)==type(self) and self.rep==other.rep
+    def __hash__(self):
+        return hash((type(self),self.rep))
+    def __lt__(self,other):
+        if other==self.rep: return False
+        return super().__lt__(other)
+    def size(self):
+        return self.rep.size()
+        
+V=Vector= Base()  #: Alias V or Vector for an instance of the Base representation of a group
+
+Scalar = ScalarRep()#: An instance of the Scalar representation, equivalent to V**0
+
+@export
+def T(p,q=0,G=None):
+    """ A convenience function for creating rank (p,q) tensors."""
+    return (V**p*V.T**q)(G)
+
+def orthogonal_complement(proj):
+    """ Computes the orthogonal complement to a given matrix proj"""
+    U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    rank = (S>1e-5).sum()
+    return VH[rank:].conj().T
+
+def krylov_constraint_solve(C,tol=1e-5):
+    """ Computes the solution basis Q for the linear constraint CQ=0  and QᵀQ=I
+        up to specified tolerance with C expressed as a LinearOperator. """
+    r = 5
+    if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
+    found_rank=5
+    while found_rank==r:
+        r *= 2 # Iterative doubling of rank until large enough to include the full solution space
+        if C.shape[0]*r>2e9:
+            logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
+            break
+        Q = krylov_constraint_solve_upto_r(C,r,tol)
+        found_rank = Q.shape[-1]
+    return Q
+
+def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
+    """ Iterative routine to compute the solution basis to the constraint CQ=0 and QᵀQ=I
+        up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
+        objective |CQ|^2, which provably converges at an exponential rate."""
+    W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
+    W = device_put(W)
+    opt_init,opt_update = optax.sgd(lr,.9)
+    opt_state = opt_init(W)  # init stats
+
+    def loss(W):
+        return (jnp.absolute(C@W)**2).sum()/2 # added absolute for complex support
+
+    loss_and_grad = jit(jax.value_and_grad(loss))
+    # setup progress bar
+    pbar = tqdm(total=100,desc=f'Krylov Solving for Equivariant Subspace r<={r}',
+    bar_format="{l_bar}{bar}| {n:.3g}/{total_fmt} [{elapsed}<{remaining}, {rate_fmt}{postfix}]")
+    prog_val = 0
+    lstart, _ = loss_and_grad(W)
+    
+    for i in range(20000):
+        
+        lossval, grad = loss_and_grad(W)
+        updates, opt_state = opt_update(grad, opt_state, W)
+        W = optax.apply_updates(W, updates)
+        # update progress bar
+        progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
+        progress = min(100-prog_val,progress)
+        if progress>0:
+            prog_val += progress
+            pbar.update(progress)
+
+        if jnp.sqrt(lossval) <tol: # check convergence condition
+            pbar.close()
+            break # has converged
+        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
+            logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
+            if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
+            return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
+    else: raise ConvergenceError("Failed to converge.")
+    # Orthogonalize solution at the end
+    U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
+    # Would like to do economy SVD here (to not have the unecessary O(n^2) memory cost) 
+    # but this is not supported in numpy (or Jax) unfortunately.
+    rank = (S>10*tol).sum()
+    Q = device_put(U[:,:rank])
+    # final_L
+    final_L = loss_and_grad(Q)[0]
+    if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
+    scutoff = (S[rank] if r>rank else 0)
+    assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
+        above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
+    #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
+    return Q
+
+class ConvergenceError(Exception): pass
+
+@export
+def sparsify_basis(Q,lr=1e-2): #(n,r)
+    """ Convenience function to attempt to sparsify a given basis by applying an orthogonal transformation
+        W, Q' = QW where Q' has only 1s, 0s and -1s. Notably this method does not have the same convergence
+        gauruntees of krylov_constraint_solve and can fail (even silently). Intended to be used only for
+        visualization purposes, use at your own risk. """
+    W = np.random.randn(Q.shape[-1],Q.shape[-1])
+    W,_ = np.linalg.qr(W)
+    W = device_put(W.astype(jnp.float32))
+    opt_init,opt_update = optax.adam(lr)#optax.sgd(1e2,.9)#optax.adam(lr)#optax.sgd(3e-3,.9)#optax.adam(lr)
+    opt_update = jit(opt_update)
+    opt_state = opt_init(W)  # init stats
+
+    def loss(W):
+        return jnp.abs(Q@W.T).mean() + .1*(jnp.abs(W.T@W-jnp.eye(W.shape[0]))).mean()+.01*jax.numpy.linalg.slogdet(W)[1]**2
+
+    loss_and_grad = jit(jax.value_and_grad(loss))
+
+    for i in tqdm(range(3000),desc=f'sparsifying basis'):
+        lossval, grad = loss_and_grad(W)
+        updates, opt_state = opt_update(grad, opt_state, W)
+        W = optax.apply_updates(W, updates)
+        #W,_ = np.linalg.qr(W)
+        if lossval>1e2 and i>100: # Solve diverged due to too high learning rate
+            logging.warning(f"basis sparsification diverged, trying lower learning rate {lr/3:.2e}")
+            return sparsify_basis(Q,lr=lr/3)
+    Q = np.copy(Q@W.T)
+    Q[np.abs(Q)<1e-2]=0
+    Q[np.abs(Q)>1e-2] /= np.abs(Q[np.abs(Q)>1e-2])
+    A = Q@(1+np.arange(Q.shape[-1]))
+    if len(np.unique(np.abs(A)))!=Q.shape[-1]+1 and len(np.unique(np.abs(A)))!=Q.shape[-1]:
+        logging.error(f"Basis elems did not separate: found only {len(np.unique(np.abs(A)))}/{Q.shape[-1]}")
+        #raise ConvergenceError(f"Basis elems did not separate: found only {len(np.unique(A))}/{Q.shape[-1]}")
+    return Q
+
+#@partial(jit,static_argnums=(0,1))
+@export
+def bilinear_weights(out_rep,in_rep):
+    #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
+    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
+    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
+    inv_perm = np.argsort(W_perm)
+    mat_shape = out_rep.size(),in_rep.size()
+    x_rep=in_rep
+    W_multiplicities = W_rep.reps
+    x_multiplicities = x_rep.reps
+    x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
+    nelems = lambda nx,rep: min(nx,rep.size())
+    active_dims = sum([W_multiplicities.get(rep,0)*nelems(n,rep) for rep,n in x_multiplicities.items()])
+    reduced_indices_dict = {rep:ids[np.random.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
+                                for rep,ids in x_rep.as_dict(np.arange(x_rep.size())).items()}
+    # Apply the projections for each rank, concatenate, and permute back to orig rank order
+    @jit
+    def lazy_projection(params,x): # (r,), (*c) #TODO: find out why backwards of this function is so slow
+        bshape = x.shape[:-1]
+        x = x.reshape(-1,x.shape[-1])
+        bs = x.shape[0]
+        i=0
+        Ws = []
+        for rep, W_mult in W_multiplicities.items():
+            if rep not in x_multiplicities:
+                Ws.append(jnp.zeros((bs,W_mult*rep.size())))
+                continue
+            x_mult = x_multiplicities[rep]
+            n = nelems(x_mult,rep)
+            i_end = i+W_mult*n
+            bids =  reduced_indices_dict[rep]
+            bilinear_params = params[i:i_end].reshape(W_mult,n) # bs,nK-> (nK,bs)
+            i = i_end  # (bs,W_mult,d^r) = (W_mult,n)@(n,d^r,bs)
+            bilinear_elems = bilinear_params@x[...,bids].T.reshape(n,rep.size()*bs)
+            bilinear_elems = bilinear_elems.reshape(W_mult*rep.size(),bs).T
+            Ws.append(bilinear_elems)
+        Ws = jnp.concatenate(Ws,axis=-1) #concatenate over rep axis
+        return Ws[...,inv_perm].reshape(*bshape,*mat_shape) # reorder to original rank ordering
+    return active_dims,lazy_projection
+        
+# @jit
+# def mul_part(bparams,x,bids):
+#     b = prod(x.shape[:-1])
+#     return (bparams@x[...,bids].T.reshape(bparams.shape[-1],-1)).reshape(-1,b).T
+
+@export
+def vis(repin,repout,cluster=True):
+    """ A function to visualize the basis of equivariant maps repin>>repout
+        as an image. Only use cluster=True if you know Pv will only have
+        r distinct values (true for G<S(n) but not true for many continuous groups)."""
+    rep = (repin>>repout)
+    P = rep.equivariant_projector() # compute the equivariant basis
+    Q = rep.equivariant_basis()
+    v = np.random.randn(P.shape[1])  # sample random vector
+    v = np.round(P@v,decimals=4)  # project onto equivariant subspace (and round)
+    if cluster: # cluster nearby values for better color separation in plot
+        v = KMeans(n_clusters=Q.shape[-1]).fit(v.reshape(-1,1)).labels_
+    plt.imshow(v.reshape(repout.size(),repin.size()))
+    plt.axis('off')
+
+
+def scale_adjusted_rel_error(t1,t2,g):
+    error = jnp.sqrt(jnp.mean(jnp.abs(t1-t2)**2))
+    tscale = jnp.sqrt(jnp.mean(jnp.abs(t1)**2)) + jnp.sqrt(jnp.mean(jnp.abs(t2)**2))
+    gscale = jnp.sqrt(jnp.mean(jnp.abs(g-jnp.eye(g.shape[-1]))**2))
+    scale = jnp.maximum(tscale,gscale)
+    return error/jnp.maximum(scale,1e-7)
+
+@export
+def equivariance_error(W,repin,repout,G):
+    """ Computes the equivariance relative error rel_err(Wρ₁(g),ρ₂(g)W)
+        of the matrix W (dim(repout),dim(repin)) [or basis Q: (dim(repout)xdim(repin), r)]
+        according to the input and output representations and group G. """
+    W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]
+
+    # Sample 5 group elements and verify the equivariance for each
+    gs = G.samples(5)
+    ring = vmap(repin.rho_dense)(gs)[:,None]
+    routg = vmap(repout.rho_dense)(gs)[:,None]
+    equiv_err = scale_adjusted_rel_error(W@ring,routg@W,gs)
+    return equiv_err
+
 import emlp.groups # Why is this necessary to avoid circular import?
\ No newline at end of file
-- 
2.43.0


From 86078e5754a9c1a661265b527951f9616c0681b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 14/38] fix: equality and hashing of direct sums

---
 emlp/reps/product_sum_reps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..3bf11a3 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,10 +41,10 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and list(self.reps.items())==list(other.reps.items()) \
+                and np.array_equal(self.perm,other.perm)
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
-- 
2.43.0


From abe23ff046d410ebd46166578bfbcc1a9383b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 15/38] fix: instantiating Scalar with a group does not modify
 the shared Scalar

---
 emlp/reps/representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index f306944..277019e 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -205,8 +205,7 @@ class ScalarRep(Rep):
         self.G=G
         self.is_permutation = True
     def __call__(self,G):
-        self.G=G
-        return self
+        return ScalarRep(G)
     def size(self):
         return 1
     def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
@@ -223,6 +222,8 @@ class ScalarRep(Rep):
         return 0
     def __eq__(self,other):
         return isinstance(other,ScalarRep)
+    def __lt__(self,other):
+        return not isinstance(other,ScalarRep) # scalars always come first
     def __mul__(self,other):
         if isinstance(other,int): return super().__mul__(other)
         return other
-- 
2.43.0


From 0755e5e428ccdac3492281a71ff26c574d207469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 16/38] fix: pytorch models accept the training argument that
 Standardize passes

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..30276db 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -163,7 +163,7 @@ class EMLP(nn.Module):
             *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
             Linear(reps[-1],self.rep_out)
         )
-    def forward(self,x):
+    def forward(self,x,training=True):
         return self.network(x)
 
 class Swish(nn.Module):
@@ -189,7 +189,7 @@ class MLP(nn.Module):
             nn.Linear(chs[-1],cout)
         )
 
-    def forward(self,x):
+    def forward(self,x,training=True):
         y = self.net(x)
         return y
 
-- 
2.43.0


From 3a9fc5ec7457a1ac51b0c71af7d8b0f29644f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 17/38] fix: GroupAugmentation with representations that are
 not bound to a group yet

---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0405843 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in if rep_in.concrete else rep_in(group)
+        self.rep_out=rep_out if rep_out.concrete else rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From caf4bf96d4810c4fe3272c88e0f211838ec7fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 18/38] fix: gates of a hidden layer with a single
 representation

---
 emlp/nn/objax.py | 696 +++++++++++++++++++++++------------------------
 1 file changed, 348 insertions(+), 348 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..1d52db7 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -1,349 +1,349 @@
-import jax
-import jax.numpy as jnp
-import objax.nn as nn
-import objax.functional as F
-import numpy as np
-from emlp.reps import T,Rep,Scalar
-from emlp.reps import bilinear_weights
-from emlp.reps.product_sum_reps import SumRep
-import collections
-from emlp.utils import Named,export
-import scipy as sp
-import scipy.special
-import random
-import logging
-from objax.variable import TrainVar, StateVar
-from objax.nn.init import kaiming_normal, xavier_normal
-from objax.module import Module
-import objax
-from objax.nn.init import orthogonal
-from scipy.special import binom
-from jax import jit,vmap
-from functools import lru_cache as cache
-
-def Sequential(*args):
-    """ Wrapped to mimic pytorch syntax"""
-    return nn.Sequential(args)
-
-@export
-class Linear(nn.Linear):
-    """ Basic equivariant Linear layer from repin to repout."""
-    def __init__(self, repin, repout):
-        nin,nout = repin.size(),repout.size()
-        super().__init__(nin,nout)
-        self.b = TrainVar(objax.random.uniform((nout,))/jnp.sqrt(nout))
-        self.w = TrainVar(orthogonal((nout, nin)))
-        self.rep_W = rep_W = repout*repin.T
-        
-        rep_bias = repout
-        self.Pw = rep_W.equivariant_projector()
-        self.Pb = rep_bias.equivariant_projector()
-        logging.info(f"Linear W components:{rep_W.size()} rep:{rep_W}")
-    def __call__(self, x): # (cin) -> (cout)
-        logging.debug(f"linear in shape: {x.shape}")
-        W = (self.Pw@self.w.value.reshape(-1)).reshape(*self.w.value.shape)
-        b = self.Pb@self.b.value
-        out = x@W.T+b
-        logging.debug(f"linear out shape:{out.shape}")
-        return out
-
-@export
-class BiLinear(Module):
-    """ Cheap bilinear layer (adds parameters for each part of the input which can be
-        interpreted as a linear map from a part of the input to the output representation)."""
-    def __init__(self, repin, repout):
-        super().__init__()
-        Wdim, weight_proj = bilinear_weights(repout,repin)
-        self.weight_proj = jit(weight_proj)
-        self.w = TrainVar(objax.random.normal((Wdim,)))
-        logging.info(f"BiW components: dim:{Wdim}")
-
-    def __call__(self, x,training=True):
-        # compatible with non sumreps? need to check
-        W = self.weight_proj(self.w.value,x)
-        out= .1*(W@x[...,None])[...,0]
-        return out
-
-@export
-def gated(ch_rep:Rep) -> Rep:
-    """ Returns the rep with an additional scalar 'gate' for each of the nonscalars and non regular
-        reps in the input. To be used as the output for linear (and or bilinear) layers directly
-        before a :func:`GatedNonlinearity` to produce its scalar gates. """
-    if isinstance(ch_rep,SumRep):
-        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
-    else:
-        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
-
-@export
-class GatedNonlinearity(Module):
-    """ Gated nonlinearity. Requires input to have the additional gate scalars
-        for every non regular and non scalar rep. Applies swish to regular and
-        scalar reps. """
-    def __init__(self,rep):
-        super().__init__()
-        self.rep=rep
-    def __call__(self,values):
-        gate_scalars = values[..., gate_indices(self.rep)]
-        activations = jax.nn.sigmoid(gate_scalars) * values[..., :self.rep.size()]
-        return activations
-
-@export
-class EMLPBlock(Module):
-    """ Basic building block of EMLP consisting of G-Linear, biLinear,
-        and gated nonlinearity. """
-    def __init__(self,rep_in,rep_out):
-        super().__init__()
-        self.linear = Linear(rep_in,gated(rep_out))
-        self.bilinear = BiLinear(gated(rep_out),gated(rep_out))
-        self.nonlinearity = GatedNonlinearity(rep_out)
-    def __call__(self,x):
-        lin = self.linear(x)
-        preact =self.bilinear(lin)+lin
-        return self.nonlinearity(preact)
-
-def uniform_rep_general(ch,*rep_types):
-    """ adds all combinations of (powers of) rep_types up to
-        a total size of ch channels. """
-    raise NotImplementedError
-    
-    
-    
-
-@export
-def uniform_rep(ch,group):
-    """ A heuristic method for allocating a given number of channels (ch)
-        into tensor types. Attempts to distribute the channels evenly across
-        the different tensor types. Useful for hands off layer construction.
-        
-        Args:
-            ch (int): total number of channels
-            group (Group): symmetry group
-
-        Returns:
-            SumRep: The direct sum representation with dim(V)=ch
-        """
-    d = group.d
-    Ns = np.zeros((lambertW(ch,d)+1,),int) # number of tensors of each rank
-    while ch>0:
-        max_rank = lambertW(ch,d) # compute the max rank tensor that can fit up to
-        Ns[:max_rank+1] += np.array([d**(max_rank-r) for r in range(max_rank+1)],dtype=int)
-        ch -= (max_rank+1)*d**max_rank # compute leftover channels
-    sum_rep = sum([binomial_allocation(nr,r,group) for r,nr in enumerate(Ns)])
-    sum_rep,perm = sum_rep.canonicalize()
-    return sum_rep
-
-def lambertW(ch,d):
-    """ Returns solution to x*d^x = ch rounded down."""
-    max_rank=0
-    while (max_rank+1)*d**max_rank <= ch:
-        max_rank += 1
-    max_rank -= 1
-    return max_rank
-
-def binomial_allocation(N,rank,G):
-    """ Allocates N of tensors of total rank r=(p+q) into
-        T(k,r-k) for k=0,1,...,r to match the binomial distribution.
-        For orthogonal representations there is no
-        distinction between p and q, so this op is equivalent to N*T(rank)."""
-    if N==0: return 0
-    n_binoms = N//(2**rank)
-    n_leftover = N%(2**rank)
-    even_split = sum([n_binoms*int(binom(rank,k))*T(k,rank-k,G) for k in range(rank+1)])
-    ps = np.random.binomial(rank,.5,n_leftover)
-    ragged = sum([T(int(p),rank-int(p),G) for p in ps])
-    out = even_split+ragged
-    return out
-
-def uniform_allocation(N,rank):
-    """ Uniformly allocates N of tensors of total rank r=(p+q) into
-        T(k,r-k) for k=0,1,...,r. For orthogonal representations there is no
-        distinction between p and q, so this op is equivalent to N*T(rank)."""
-    if N==0: return 0
-    even_split = sum((N//(rank+1))*T(k,rank-k) for k in range(rank+1))
-    ragged = sum(random.sample([T(k,rank-k) for k in range(rank+1)],N%(rank+1)))
-    return even_split+ragged
-
-@export
-class EMLP(Module,metaclass=Named):
-    """ Equivariant MultiLayer Perceptron. 
-        If the input ch argument is an int, uses the hands off uniform_rep heuristic.
-        If the ch argument is a representation, uses this representation for the hidden layers.
-        Individual layer representations can be set explicitly by using a list of ints or a list of
-        representations, rather than use the same for each hidden layer.
-
-        Args:
-            rep_in (Rep): input representation
-            rep_out (Rep): output representation
-            group (Group): symmetry group
-            ch (int or list[int] or Rep or list[Rep]): number of channels in the hidden layers
-            num_layers (int): number of hidden layers
-
-        Returns:
-            Module: the EMLP objax module."""
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
-        super().__init__()
-        logging.info("Initing EMLP (objax)")
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        
-        self.G=group
-        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
-        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
-        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
-        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
-        #assert all((not rep.G is None) for rep in middle_layers[0].reps)
-        reps = [self.rep_in]+middle_layers
-        logging.info(f"Reps: {reps}")
-        self.network = Sequential(
-            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
-            Linear(reps[-1],self.rep_out)
-        )
-    def __call__(self,x,training=True):
-        return self.network(x)
-
-def swish(x):
-    return jax.nn.sigmoid(x)*x
-
-def MLPBlock(cin,cout):
-    return Sequential(nn.Linear(cin,cout),swish)#,nn.BatchNorm0D(cout,momentum=.9),swish)#,
-
-@export
-class MLP(Module,metaclass=Named):
-    """ Standard baseline MLP. Representations and group are used for shapes only. """
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[MLPBlock(cin,cout) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def __call__(self,x,training=True):
-        y = self.net(x)
-        return y
-
-@export
-class Standardize(Module):
-    """ A convenience module to wrap a given module, normalize its input
-        by some dataset x mean and std stats, and unnormalize its output by
-        the dataset y mean and std stats. 
-
-        Args:
-            model (Module): model to wrap
-            ds_stats ((μx,σx,μy,σy) or (μx,σx)): tuple of the normalization stats
-        
-        Returns:
-            Module: Wrapped model with input normalization (and output unnormalization)"""
-    def __init__(self,model,ds_stats):
-        super().__init__()
-        self.model = model
-        self.ds_stats=ds_stats
-    def __call__(self,x,training):
-        if len(self.ds_stats)==2:
-            muin,sin = self.ds_stats
-            return self.model((x-muin)/sin,training=training)
-        else:
-            muin,sin,muout,sout = self.ds_stats
-            y = sout*self.model((x-muin)/sin,training=training)+muout
-            return y
-
-
-
-# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
-@export
-class MLPode(Module,metaclass=Named):
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def __call__(self,z,t):
-        return self.net(z)
-
-@export
-class EMLPode(EMLP):
-    """ Neural ODE Equivariant MLP. Same args as EMLP."""
-    #__doc__ += EMLP.__doc__.split('.')[1]
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
-        #super().__init__()
-        logging.info("Initing EMLP")
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G=group
-        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
-        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
-        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
-        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
-        #print(middle_layers[0].reps[0].G)
-        #print(self.rep_in.G)
-        reps = [self.rep_in]+middle_layers
-        logging.info(f"Reps: {reps}")
-        self.network = Sequential(
-            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
-            Linear(reps[-1],self.rep_out)
-        )
-    def __call__(self,z,t):
-        return self.network(z)
-
-# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
-@export
-class MLPH(Module,metaclass=Named):
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def H(self,x):#,training=True):
-        y = self.net(x).sum()
-        return y
-    def __call__(self,x):
-        return self.H(x)
-
-@export
-class EMLPH(EMLP):
-    """ Equivariant EMLP modeling a Hamiltonian for HNN. Same args as EMLP"""
-    #__doc__ += EMLP.__doc__.split('.')[1]
-    def H(self,x):#,training=True):
-        y = self.network(x)
-        return y.sum()
-    def __call__(self,x):
-        return self.H(x)
-
-@export
-@cache(maxsize=None)
-def gate_indices(ch_rep:Rep) -> jnp.ndarray:
-    """ Indices for scalars, and also additional scalar gates
-        added by gated(sumrep)"""
-    channels = ch_rep.size()
-    perm = ch_rep.perm
-    indices = np.arange(channels)
-
-    if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
-
-    num_nonscalars = 0
-    i=0
-    for rep in ch_rep:
-        if rep!=Scalar and not rep.is_permutation:
-            indices[perm[i:i+rep.size()]] = channels+num_nonscalars
-            num_nonscalars+=1
-        i+=rep.size()
+import jax
+import jax.numpy as jnp
+import objax.nn as nn
+import objax.functional as F
+import numpy as np
+from emlp.reps import T,Rep,Scalar
+from emlp.reps import bilinear_weights
+from emlp.reps.product_sum_reps import SumRep
+import collections
+from emlp.utils import Named,export
+import scipy as sp
+import scipy.special
+import random
+import logging
+from objax.variable import TrainVar, StateVar
+from objax.nn.init import kaiming_normal, xavier_normal
+from objax.module import Module
+import objax
+from objax.nn.init import orthogonal
+from scipy.special import binom
+from jax import jit,vmap
+from functools import lru_cache as cache
+
+def Sequential(*args):
+    """ Wrapped to mimic pytorch syntax"""
+    return nn.Sequential(args)
+
+@export
+class Linear(nn.Linear):
+    """ Basic equivariant Linear layer from repin to repout."""
+    def __init__(self, repin, repout):
+        nin,nout = repin.size(),repout.size()
+        super().__init__(nin,nout)
+        self.b = TrainVar(objax.random.uniform((nout,))/jnp.sqrt(nout))
+        self.w = TrainVar(orthogonal((nout, nin)))
+        self.rep_W = rep_W = repout*repin.T
+        
+        rep_bias = repout
+        self.Pw = rep_W.equivariant_projector()
+        self.Pb = rep_bias.equivariant_projector()
+        logging.info(f"Linear W components:{rep_W.size()} rep:{rep_W}")
+    def __call__(self, x): # (cin) -> (cout)
+        logging.debug(f"linear in shape: {x.shape}")
+        W = (self.Pw@self.w.value.reshape(-1)).reshape(*self.w.value.shape)
+        b = self.Pb@self.b.value
+        out = x@W.T+b
+        logging.debug(f"linear out shape:{out.shape}")
+        return out
+
+@export
+class BiLinear(Module):
+    """ Cheap bilinear layer (adds parameters for each part of the input which can be
+        interpreted as a linear map from a part of the input to the output representation)."""
+    def __init__(self, repin, repout):
+        super().__init__()
+        Wdim, weight_proj = bilinear_weights(repout,repin)
+        self.weight_proj = jit(weight_proj)
+        self.w = TrainVar(objax.random.normal((Wdim,)))
+        logging.info(f"BiW components: dim:{Wdim}")
+
+    def __call__(self, x,training=True):
+        # compatible with non sumreps? need to check
+        W = self.weight_proj(self.w.value,x)
+        out= .1*(W@x[...,None])[...,0]
+        return out
+
+@export
+def gated(ch_rep:Rep) -> Rep:
+    """ Returns the rep with an additional scalar 'gate' for each of the nonscalars and non regular
+        reps in the input. To be used as the output for linear (and or bilinear) layers directly
+        before a :func:`GatedNonlinearity` to produce its scalar gates. """
+    if isinstance(ch_rep,SumRep):
+        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
+    else:
+        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
+
+@export
+class GatedNonlinearity(Module):
+    """ Gated nonlinearity. Requires input to have the additional gate scalars
+        for every non regular and non scalar rep. Applies swish to regular and
+        scalar reps. """
+    def __init__(self,rep):
+        super().__init__()
+        self.rep=rep
+    def __call__(self,values):
+        gate_scalars = values[..., gate_indices(self.rep)]
+        activations = jax.nn.sigmoid(gate_scalars) * values[..., :self.rep.size()]
+        return activations
+
+@export
+class EMLPBlock(Module):
+    """ Basic building block of EMLP consisting of G-Linear, biLinear,
+        and gated nonlinearity. """
+    def __init__(self,rep_in,rep_out):
+        super().__init__()
+        self.linear = Linear(rep_in,gated(rep_out))
+        self.bilinear = BiLinear(gated(rep_out),gated(rep_out))
+        self.nonlinearity = GatedNonlinearity(rep_out)
+    def __call__(self,x):
+        lin = self.linear(x)
+        preact =self.bilinear(lin)+lin
+        return self.nonlinearity(preact)
+
+def uniform_rep_general(ch,*rep_types):
+    """ adds all combinations of (powers of) rep_types up to
+        a total size of ch channels. """
+    raise NotImplementedError
+    
+    
+    
+
+@export
+def uniform_rep(ch,group):
+    """ A heuristic method for allocating a given number of channels (ch)
+        into tensor types. Attempts to distribute the channels evenly across
+        the different tensor types. Useful for hands off layer construction.
+        
+        Args:
+            ch (int): total number of channels
+            group (Group): symmetry group
+
+        Returns:
+            SumRep: The direct sum representation with dim(V)=ch
+        """
+    d = group.d
+    Ns = np.zeros((lambertW(ch,d)+1,),int) # number of tensors of each rank
+    while ch>0:
+        max_rank = lambertW(ch,d) # compute the max rank tensor that can fit up to
+        Ns[:max_rank+1] += np.array([d**(max_rank-r) for r in range(max_rank+1)],dtype=int)
+        ch -= (max_rank+1)*d**max_rank # compute leftover channels
+    sum_rep = sum([binomial_allocation(nr,r,group) for r,nr in enumerate(Ns)])
+    sum_rep,perm = sum_rep.canonicalize()
+    return sum_rep
+
+def lambertW(ch,d):
+    """ Returns solution to x*d^x = ch rounded down."""
+    max_rank=0
+    while (max_rank+1)*d**max_rank <= ch:
+        max_rank += 1
+    max_rank -= 1
+    return max_rank
+
+def binomial_allocation(N,rank,G):
+    """ Allocates N of tensors of total rank r=(p+q) into
+        T(k,r-k) for k=0,1,...,r to match the binomial distribution.
+        For orthogonal representations there is no
+        distinction between p and q, so this op is equivalent to N*T(rank)."""
+    if N==0: return 0
+    n_binoms = N//(2**rank)
+    n_leftover = N%(2**rank)
+    even_split = sum([n_binoms*int(binom(rank,k))*T(k,rank-k,G) for k in range(rank+1)])
+    ps = np.random.binomial(rank,.5,n_leftover)
+    ragged = sum([T(int(p),rank-int(p),G) for p in ps])
+    out = even_split+ragged
+    return out
+
+def uniform_allocation(N,rank):
+    """ Uniformly allocates N of tensors of total rank r=(p+q) into
+        T(k,r-k) for k=0,1,...,r. For orthogonal representations there is no
+        distinction between p and q, so this op is equivalent to N*T(rank)."""
+    if N==0: return 0
+    even_split = sum((N//(rank+1))*T(k,rank-k) for k in range(rank+1))
+    ragged = sum(random.sample([T(k,rank-k) for k in range(rank+1)],N%(rank+1)))
+    return even_split+ragged
+
+@export
+class EMLP(Module,metaclass=Named):
+    """ Equivariant MultiLayer Perceptron. 
+        If the input ch argument is an int, uses the hands off uniform_rep heuristic.
+        If the ch argument is a representation, uses this representation for the hidden layers.
+        Individual layer representations can be set explicitly by using a list of ints or a list of
+        representations, rather than use the same for each hidden layer.
+
+        Args:
+            rep_in (Rep): input representation
+            rep_out (Rep): output representation
+            group (Group): symmetry group
+            ch (int or list[int] or Rep or list[Rep]): number of channels in the hidden layers
+            num_layers (int): number of hidden layers
+
+        Returns:
+            Module: the EMLP objax module."""
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
+        super().__init__()
+        logging.info("Initing EMLP (objax)")
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        
+        self.G=group
+        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
+        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
+        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
+        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
+        #assert all((not rep.G is None) for rep in middle_layers[0].reps)
+        reps = [self.rep_in]+middle_layers
+        logging.info(f"Reps: {reps}")
+        self.network = Sequential(
+            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
+            Linear(reps[-1],self.rep_out)
+        )
+    def __call__(self,x,training=True):
+        return self.network(x)
+
+def swish(x):
+    return jax.nn.sigmoid(x)*x
+
+def MLPBlock(cin,cout):
+    return Sequential(nn.Linear(cin,cout),swish)#,nn.BatchNorm0D(cout,momentum=.9),swish)#,
+
+@export
+class MLP(Module,metaclass=Named):
+    """ Standard baseline MLP. Representations and group are used for shapes only. """
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[MLPBlock(cin,cout) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def __call__(self,x,training=True):
+        y = self.net(x)
+        return y
+
+@export
+class Standardize(Module):
+    """ A convenience module to wrap a given module, normalize its input
+        by some dataset x mean and std stats, and unnormalize its output by
+        the dataset y mean and std stats. 
+
+        Args:
+            model (Module): model to wrap
+            ds_stats ((μx,σx,μy,σy) or (μx,σx)): tuple of the normalization stats
+        
+        Returns:
+            Module: Wrapped model with input normalization (and output unnormalization)"""
+    def __init__(self,model,ds_stats):
+        super().__init__()
+        self.model = model
+        self.ds_stats=ds_stats
+    def __call__(self,x,training):
+        if len(self.ds_stats)==2:
+            muin,sin = self.ds_stats
+            return self.model((x-muin)/sin,training=training)
+        else:
+            muin,sin,muout,sout = self.ds_stats
+            y = sout*self.model((x-muin)/sin,training=training)+muout
+            return y
+
+
+
+# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
+@export
+class MLPode(Module,metaclass=Named):
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def __call__(self,z,t):
+        return self.net(z)
+
+@export
+class EMLPode(EMLP):
+    """ Neural ODE Equivariant MLP. Same args as EMLP."""
+    #__doc__ += EMLP.__doc__.split('.')[1]
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
+        #super().__init__()
+        logging.info("Initing EMLP")
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G=group
+        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
+        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
+        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
+        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
+        #print(middle_layers[0].reps[0].G)
+        #print(self.rep_in.G)
+        reps = [self.rep_in]+middle_layers
+        logging.info(f"Reps: {reps}")
+        self.network = Sequential(
+            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
+            Linear(reps[-1],self.rep_out)
+        )
+    def __call__(self,z,t):
+        return self.network(z)
+
+# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
+@export
+class MLPH(Module,metaclass=Named):
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def H(self,x):#,training=True):
+        y = self.net(x).sum()
+        return y
+    def __call__(self,x):
+        return self.H(x)
+
+@export
+class EMLPH(EMLP):
+    """ Equivariant EMLP modeling a Hamiltonian for HNN. Same args as EMLP"""
+    #__doc__ += EMLP.__doc__.split('.')[1]
+    def H(self,x):#,training=True):
+        y = self.network(x)
+        return y.sum()
+    def __call__(self,x):
+        return self.H(x)
+
+@export
+@cache(maxsize=None)
+def gate_indices(ch_rep:Rep) -> jnp.ndarray:
+    """ Indices for scalars, and also additional scalar gates
+        added by gated(sumrep)"""
+    channels = ch_rep.size()
+    indices = np.arange(channels)
+
+    if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
+        return indices if ch_rep.is_permutation else channels*np.ones(channels,int)
+
+    perm = ch_rep.perm
+    num_nonscalars = 0
+    i=0
+    for rep in ch_rep:
+        if rep!=Scalar and not rep.is_permutation:
+            indices[perm[i:i+rep.size()]] = channels+num_nonscalars
+            num_nonscalars+=1
+        i+=rep.size()
     return indices
\ No newline at end of file
-- 
2.43.0


From c951a01f53d36e3370a18eff04e63dcecbfdaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 19/38] fix: bilinear layers between representations that are
 not direct sums

---
 emlp/reps/representation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 277019e..0e3b6c1 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -419,11 +419,12 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    as_sum = lambda rep: rep if isinstance(rep,SumRep) else SumRep(rep)
+    W_rep,W_perm = as_sum(in_rep>>out_rep).canonicalize()
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
+    x_rep=as_sum(in_rep)
     W_multiplicities = W_rep.reps
     x_multiplicities = x_rep.reps
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-- 
2.43.0


From f1ab887c1aa73dca3b94911ed140e4d45cb27076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 20/38] fix: gradients of torchified functions with pytree
 arguments or several outputs

---
 emlp/nn/pytorch.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index 30276db..d8028f0 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -53,17 +53,29 @@ def torchify_fn(function):
         back to torch but preserving the gradients of the operation to be called
         with pytorch autograd. """
     vjp = jit(lambda *args: jax.vjp(function,*args))
-    class torched_fn(Function):
+    class torched_fn(Function): # autograd Functions see a flat list of tensors
         @staticmethod
-        def forward(ctx,*args):
+        def forward(ctx,in_tree,out_tree,*flat_args):
+            args = tree_unflatten(in_tree,to_jax(flat_args))
             if any(ctx.needs_input_grad):
-                y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
-                return to_pytorch(y)
-            return to_pytorch(function(*to_jax(args)))
+                y,ctx.vjp_fn = vjp(*args)#jax.vjp(function,*to_jax(args))
+            else:
+                y = function(*args)
+            flat_y,ctx.out_tree = tree_flatten(y)
+            out_tree.append(ctx.out_tree)
+            return tuple(to_pytorch(flat_y))
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
-    return torched_fn.apply #TORCHED #Roasted
+            grads = ctx.vjp_fn(tree_unflatten(ctx.out_tree,to_jax(grad_outputs)))
+            flat_grads,_ = tree_flatten(grads)
+            has_grad = lambda g: g.dtype!=jax.dtypes.float0
+            return (None,None,*[jax2torch(g) if has_grad(g) else None for g in flat_grads])
+    def torched(*args):
+        flat_args,in_tree = tree_flatten(args)
+        out_tree = []
+        flat_y = torched_fn.apply(in_tree,out_tree,*flat_args)
+        return tree_unflatten(out_tree[0],flat_y)
+    return torched #TORCHED #Roasted
 
 
 @export
-- 
2.43.0


From 3c2dba73effb2e4d2fc5c4d685b3b2c9ccb330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 21/38] fix: solve for the basis in double precision when the
 single precision SVD does not converge

---
 emlp/reps/representation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 0e3b6c1..5cbd14b 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -306,6 +306,10 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(S).all(): # the single precision LAPACK routine did not converge
+        dtype = np.complex128 if jnp.iscomplexobj(proj) else np.float64
+        _,S,VH = np.linalg.svd(np.asarray(proj,dtype=dtype),full_matrices=True)
+        S,VH = jnp.asarray(S),jnp.asarray(VH,dtype=proj.dtype)
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From a353b82aed3fc996edf26e3d39587ea5354a188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 22/38] fix: LazyDirectSum keeps the imaginary part of complex
 numpy blocks

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 0c6e090..c50d7b4 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -146,7 +146,7 @@ class ConcatLazy(LinearOperator):
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
         shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
                       sum(Mi.shape[1]*c for Mi,c in zip(Ms,self.multiplicities)))
-- 
2.43.0


From 704900185c3e28f24548aefd0b03d4e2f86b02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 23/38] fix: cube rotations behind the RubiksCube generators
 turn the stickers along

The face turns other than U were conjugated by whole cube rotations that moved the faces
without turning the stickers on them, so that the generators tore the pieces of the cube
apart and generated a group of order 24!^2/2 instead of the Rubik's cube group.
---
 emlp/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 1aa5e97..f5fcf53 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -388,7 +388,8 @@ class RubiksCube(Group): #3x3 rubiks cube
         order = np.arange(48)                                 #  L U R
         order_padded = pad(order) # include a center element  #    F
         # Compute permutation for Up quarter turn             #    D
-        order_padded[0,:] = np.rot90(order_padded[0].reshape(3,3),1).reshape(9) # Rotate top face
+        rotate = lambda face,k: np.rot90(face.reshape(3,3),k).reshape(9)
+        order_padded[0,:] = rotate(order_padded[0],1) # Rotate top face
         FRBL = np.array([1,2,3,4])
         order_padded[FRBL,:3] = order_padded[np.roll(FRBL,1),:3] # F <- L,R <- F,B <- R,L <- B
         Uperm = unpad(order_padded)
@@ -396,11 +397,15 @@ class RubiksCube(Group): #3x3 rubiks cube
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
         RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        for face,quarter_turns in [(0,-1),(2,-1),(5,-1),(4,-1),(1,-1),(3,1)]: # the stickers of the faces turn along
+            RotFront[face] = rotate(RotFront[face],quarter_turns)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        for face,quarter_turns in [(0,2),(3,2),(4,-1),(2,1)]: # the net shows the back face upside down
+            RotLeft[face] = rotate(RotLeft[face],quarter_turns)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 3d424725d5a619a1fa52d3408b4b3ef0afa4ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 24/38] fix: D(1) is not a permutation group

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index f5fcf53..a2e1bae 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -174,6 +174,7 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_permutation = False # the reflection is not a permutation (matters for D(1))
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From fdd36f96cd9f1d7b677b7f91dececf05b5c42d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 25/38] fix: samples of groups with complex discrete generators

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index a2e1bae..11e8ff4 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -104,7 +104,7 @@ class Group(object,metaclass=Named):
 
 @jit
 def matrix_power_simple(M,n):
-    out = jnp.eye(M.shape[-1])
+    out = jnp.eye(M.shape[-1],dtype=jnp.result_type(M,jnp.float32))
     body = lambda Mn: jax.lax.fori_loop(0,Mn[1],lambda i,g: Mn[0]@g,out)
     out = jax.lax.cond(n<0,(jnp.linalg.inv(M),-n),body,(M,n),body)
     return out
-- 
2.43.0


From 9e70e4904b98e5b9842f4f82ef2c4fc1be3206a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 26/38] fix: the canonical order of representations is a total
 order

Base reps sorted before the duals of any other group, and reps of a single group were compared
with products of several groups by size only. The resulting order was not transitive, and sums
and products of reps of different groups were permuted wrongly, depending on the hash seed.
---
 emlp/reps/representation.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 5cbd14b..3033d58 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -167,13 +167,14 @@ class Rep(object):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
         if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
+        G1,G2 = getattr(self,"G",None),getattr(other,"G",None)
+        if (G1 is None)!=(G2 is None): return G2 is None # products of different groups have no G, and come last
+        if G1 is not None and G1<G2: return True
+        if G1 is not None and G1>G2: return False
         if self.size()<other.size(): return True
         if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
+        sort_key = lambda rep: (hash(rep.rep),1) if isinstance(rep,Dual) else (hash(rep),0)
+        return sort_key(self) < sort_key(other) #For sorting purposes only
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
         raise NotImplementedError
@@ -258,9 +259,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -288,9 +286,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From 4dadcd438a1740698383311c5a13580157227c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 27/38] fix: tensor products whose factors are not in canonical
 order can be hashed

---
 emlp/reps/product_sum_reps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 3bf11a3..3334dd1 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -277,7 +277,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
-- 
2.43.0


From c42dcdd0df741ae574598f2cfc1fe7d866999455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 28/38] fix: products and sums that are bound to a group can be
 bound again

---
 emlp/reps/product_sum_reps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 3334dd1..f3e74ab 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -66,7 +66,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRepFromCollection({rep(G):c for rep,c in self.reps.items()},perm=self.perm)
+        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     @property
     def concrete(self):
@@ -281,6 +281,9 @@ class ProductRep(Rep):
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
     
+    def __call__(self,G):
+        return self.__class__(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+
     @property
     def concrete(self):
         return True
@@ -370,6 +373,9 @@ class DirectProduct(ProductRep):
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
         assert all(count==1 for count in self.reps.values())
 
+    def __call__(self,G):
+        raise NotImplementedError # the factors belong to different groups
+
     def equivariant_basis(self):
         canon_Q = LazyKron([rep.equivariant_basis() for rep,c in self.reps.items()])
         return LazyPerm(self.invperm)@canon_Q
-- 
2.43.0


From 816651e60071b0a17c10d8b3877919c3953b5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 29/38] fix: torchified functions with plain number arguments
 can be differentiated

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index d8028f0..4dacb9f 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -68,8 +68,8 @@ def torchify_fn(function):
         def backward(ctx,*grad_outputs):
             grads = ctx.vjp_fn(tree_unflatten(ctx.out_tree,to_jax(grad_outputs)))
             flat_grads,_ = tree_flatten(grads)
-            has_grad = lambda g: g.dtype!=jax.dtypes.float0
-            return (None,None,*[jax2torch(g) if has_grad(g) else None for g in flat_grads])
+            needs_grad = ctx.needs_input_grad[2:] # no gradients for integer tensors and plain numbers
+            return (None,None,*[jax2torch(g) if needed else None for g,needed in zip(flat_grads,needs_grad)])
     def torched(*args):
         flat_args,in_tree = tree_flatten(args)
         out_tree = []
-- 
2.43.0


From 5c321839e1a8d500929d3068427bae60a0a06f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 30/38] fix: cached trajectories can be loaded with torch >=
 2.6

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..334c2c4 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -91,7 +91,7 @@ class HamiltonianDataset(Dataset):
         filename = os.path.join(root_dir, f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz")
 
         if os.path.exists(filename) and not regen:
-            Zs = torch.load(filename)
+            Zs = torch.load(filename,weights_only=False) # (a numpy array)
         else:
             zs = self.generate_trajectory_data(n_systems, dt, integration_time)
             Zs = np.asarray(self.chunk_training_data(zs, chunk_len))
-- 
2.43.0


From cb7e2bd4f0073132f534fe287dba85df6c7c423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 31/38] fix: trajectory chunks have exactly one time for each
 state

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 334c2c4..7bb3916 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -99,7 +99,7 @@ class HamiltonianDataset(Dataset):
             torch.save(Zs, filename)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len))
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
-- 
2.43.0


From 375f5d6e2be411125d6ffbd6da69584b395f9a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 32/38] fix: trajectories that do not divide into whole chunks

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 7bb3916..ea015a2 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -128,7 +128,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:,:n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0


From 498a387948bb438493140977cf6650c9b8d12faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 33/38] fix: keep the original line endings (undoes an
 unintended change of 7d570df and caf4bf9)

---
 emlp/nn/objax.py            |  696 ++++++++++++------------
 emlp/reps/representation.py | 1000 +++++++++++++++++------------------
 2 files changed, 848 insertions(+), 848 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 1d52db7..a06eec5 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -1,349 +1,349 @@
-import jax
-import jax.numpy as jnp
-import objax.nn as nn
-import objax.functional as F
-import numpy as np
-from emlp.reps import T,Rep,Scalar
-from emlp.reps import bilinear_weights
-from emlp.reps.product_sum_reps import SumRep
-import collections
-from emlp.utils import Named,export
-import scipy as sp
-import scipy.special
-import random
-import logging
-from objax.variable import TrainVar, StateVar
-from objax.nn.init import kaiming_normal, xavier_normal
-from objax.module import Module
-import objax
-from objax.nn.init import orthogonal
-from scipy.special import binom
-from jax import jit,vmap
-from functools import lru_cache as cache
-
-def Sequential(*args):
-    """ Wrapped to mimic pytorch syntax"""
-    return nn.Sequential(args)
-
-@export
-class Linear(nn.Linear):
-    """ Basic equivariant Linear layer from repin to repout."""
-    def __init__(self, repin, repout):
-        nin,nout = repin.size(),repout.size()
-        super().__init__(nin,nout)
-        self.b = TrainVar(objax.random.uniform((nout,))/jnp.sqrt(nout))
-        self.w = TrainVar(orthogonal((nout, nin)))
-        self.rep_W = rep_W = repout*repin.T
-        
-        rep_bias = repout
-        self.Pw = rep_W.equivariant_projector()
-        self.Pb = rep_bias.equivariant_projector()
-        logging.info(f"Linear W components:{rep_W.size()} rep:{rep_W}")
-    def __call__(self, x): # (cin) -> (cout)
-        logging.debug(f"linear in shape: {x.shape}")
-        W = (self.Pw@self.w.value.reshape(-1)).reshape(*self.w.value.shape)
-        b = self.Pb@self.b.value
-        out = x@W.T+b
-        logging.debug(f"linear out shape:{out.shape}")
-        return out
-
-@export
-class BiLinear(Module):
-    """ Cheap bilinear layer (adds parameters for each part of the input which can be
-        interpreted as a linear map from a part of the input to the output representation)."""
-    def __init__(self, repin, repout):
-        super().__init__()
-        Wdim, weight_proj = bilinear_weights(repout,repin)
-        self.weight_proj = jit(weight_proj)
-        self.w = TrainVar(objax.random.normal((Wdim,)))
-        logging.info(f"BiW components: dim:{Wdim}")
-
-    def __call__(self, x,training=True):
-        # compatible with non sumreps? need to check
-        W = self.weight_proj(self.w.value,x)
-        out= .1*(W@x[...,None])[...,0]
-        return out
-
-@export
-def gated(ch_rep:Rep) -> Rep:
-    """ Returns the rep with an additional scalar 'gate' for each of the nonscalars and non regular
-        reps in the input. To be used as the output for linear (and or bilinear) layers directly
-        before a :func:`GatedNonlinearity` to produce its scalar gates. """
-    if isinstance(ch_rep,SumRep):
-        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
-    else:
-        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
-
-@export
-class GatedNonlinearity(Module):
-    """ Gated nonlinearity. Requires input to have the additional gate scalars
-        for every non regular and non scalar rep. Applies swish to regular and
-        scalar reps. """
-    def __init__(self,rep):
-        super().__init__()
-        self.rep=rep
-    def __call__(self,values):
-        gate_scalars = values[..., gate_indices(self.rep)]
-        activations = jax.nn.sigmoid(gate_scalars) * values[..., :self.rep.size()]
-        return activations
-
-@export
-class EMLPBlock(Module):
-    """ Basic building block of EMLP consisting of G-Linear, biLinear,
-        and gated nonlinearity. """
-    def __init__(self,rep_in,rep_out):
-        super().__init__()
-        self.linear = Linear(rep_in,gated(rep_out))
-        self.bilinear = BiLinear(gated(rep_out),gated(rep_out))
-        self.nonlinearity = GatedNonlinearity(rep_out)
-    def __call__(self,x):
-        lin = self.linear(x)
-        preact =self.bilinear(lin)+lin
-        return self.nonlinearity(preact)
-
-def uniform_rep_general(ch,*rep_types):
-    """ adds all combinations of (powers of) rep_types up to
-        a total size of ch channels. """
-    raise NotImplementedError
-    
-    
-    
-
-@export
-def uniform_rep(ch,group):
-    """ A heuristic method for allocating a given number of channels (ch)
-        into tensor types. Attempts to distribute the channels evenly across
-        the different tensor types. Useful for hands off layer construction.
-        
-        Args:
-            ch (int): total number of channels
-            group (Group): symmetry group
-
-        Returns:
-            SumRep: The direct sum representation with dim(V)=ch
-        """
-    d = group.d
-    Ns = np.zeros((lambertW(ch,d)+1,),int) # number of tensors of each rank
-    while ch>0:
-        max_rank = lambertW(ch,d) # compute the max rank tensor that can fit up to
-        Ns[:max_rank+1] += np.array([d**(max_rank-r) for r in range(max_rank+1)],dtype=int)
-        ch -= (max_rank+1)*d**max_rank # compute leftover channels
-    sum_rep = sum([binomial_allocation(nr,r,group) for r,nr in enumerate(Ns)])
-    sum_rep,perm = sum_rep.canonicalize()
-    return sum_rep
-
-def lambertW(ch,d):
-    """ Returns solution to x*d^x = ch rounded down."""
-    max_rank=0
-    while (max_rank+1)*d**max_rank <= ch:
-        max_rank += 1
-    max_rank -= 1
-    return max_rank
-
-def binomial_allocation(N,rank,G):
-    """ Allocates N of tensors of total rank r=(p+q) into
-        T(k,r-k) for k=0,1,...,r to match the binomial distribution.
-        For orthogonal representations there is no
-        distinction between p and q, so this op is equivalent to N*T(rank)."""
-    if N==0: return 0
-    n_binoms = N//(2**rank)
-    n_leftover = N%(2**rank)
-    even_split = sum([n_binoms*int(binom(rank,k))*T(k,rank-k,G) for k in range(rank+1)])
-    ps = np.random.binomial(rank,.5,n_leftover)
-    ragged = sum([T(int(p),rank-int(p),G) for p in ps])
-    out = even_split+ragged
-    return out
-
-def uniform_allocation(N,rank):
-    """ Uniformly allocates N of tensors of total rank r=(p+q) into
-        T(k,r-k) for k=0,1,...,r. For orthogonal representations there is no
-        distinction between p and q, so this op is equivalent to N*T(rank)."""
-    if N==0: return 0
-    even_split = sum((N//(rank+1))*T(k,rank-k) for k in range(rank+1))
-    ragged = sum(random.sample([T(k,rank-k) for k in range(rank+1)],N%(rank+1)))
-    return even_split+ragged
-
-@export
-class EMLP(Module,metaclass=Named):
-    """ Equivariant MultiLayer Perceptron. 
-        If the input ch argument is an int, uses the hands off uniform_rep heuristic.
-        If the ch argument is a representation, uses this representation for the hidden layers.
-        Individual layer representations can be set explicitly by using a list of ints or a list of
-        representations, rather than use the same for each hidden layer.
-
-        Args:
-            rep_in (Rep): input representation
-            rep_out (Rep): output representation
-            group (Group): symmetry group
-            ch (int or list[int] or Rep or list[Rep]): number of channels in the hidden layers
-            num_layers (int): number of hidden layers
-
-        Returns:
-            Module: the EMLP objax module."""
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
-        super().__init__()
-        logging.info("Initing EMLP (objax)")
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        
-        self.G=group
-        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
-        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
-        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
-        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
-        #assert all((not rep.G is None) for rep in middle_layers[0].reps)
-        reps = [self.rep_in]+middle_layers
-        logging.info(f"Reps: {reps}")
-        self.network = Sequential(
-            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
-            Linear(reps[-1],self.rep_out)
-        )
-    def __call__(self,x,training=True):
-        return self.network(x)
-
-def swish(x):
-    return jax.nn.sigmoid(x)*x
-
-def MLPBlock(cin,cout):
-    return Sequential(nn.Linear(cin,cout),swish)#,nn.BatchNorm0D(cout,momentum=.9),swish)#,
-
-@export
-class MLP(Module,metaclass=Named):
-    """ Standard baseline MLP. Representations and group are used for shapes only. """
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[MLPBlock(cin,cout) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def __call__(self,x,training=True):
-        y = self.net(x)
-        return y
-
-@export
-class Standardize(Module):
-    """ A convenience module to wrap a given module, normalize its input
-        by some dataset x mean and std stats, and unnormalize its output by
-        the dataset y mean and std stats. 
-
-        Args:
-            model (Module): model to wrap
-            ds_stats ((μx,σx,μy,σy) or (μx,σx)): tuple of the normalization stats
-        
-        Returns:
-            Module: Wrapped model with input normalization (and output unnormalization)"""
-    def __init__(self,model,ds_stats):
-        super().__init__()
-        self.model = model
-        self.ds_stats=ds_stats
-    def __call__(self,x,training):
-        if len(self.ds_stats)==2:
-            muin,sin = self.ds_stats
-            return self.model((x-muin)/sin,training=training)
-        else:
-            muin,sin,muout,sout = self.ds_stats
-            y = sout*self.model((x-muin)/sin,training=training)+muout
-            return y
-
-
-
-# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
-@export
-class MLPode(Module,metaclass=Named):
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def __call__(self,z,t):
-        return self.net(z)
-
-@export
-class EMLPode(EMLP):
-    """ Neural ODE Equivariant MLP. Same args as EMLP."""
-    #__doc__ += EMLP.__doc__.split('.')[1]
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
-        #super().__init__()
-        logging.info("Initing EMLP")
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G=group
-        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
-        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
-        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
-        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
-        #print(middle_layers[0].reps[0].G)
-        #print(self.rep_in.G)
-        reps = [self.rep_in]+middle_layers
-        logging.info(f"Reps: {reps}")
-        self.network = Sequential(
-            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
-            Linear(reps[-1],self.rep_out)
-        )
-    def __call__(self,z,t):
-        return self.network(z)
-
-# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
-@export
-class MLPH(Module,metaclass=Named):
-    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
-        super().__init__()
-        self.rep_in =rep_in(group)
-        self.rep_out = rep_out(group)
-        self.G = group
-        chs = [self.rep_in.size()] + num_layers*[ch]
-        cout = self.rep_out.size()
-        logging.info("Initing MLP")
-        self.net = Sequential(
-            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
-            nn.Linear(chs[-1],cout)
-        )
-    def H(self,x):#,training=True):
-        y = self.net(x).sum()
-        return y
-    def __call__(self,x):
-        return self.H(x)
-
-@export
-class EMLPH(EMLP):
-    """ Equivariant EMLP modeling a Hamiltonian for HNN. Same args as EMLP"""
-    #__doc__ += EMLP.__doc__.split('.')[1]
-    def H(self,x):#,training=True):
-        y = self.network(x)
-        return y.sum()
-    def __call__(self,x):
-        return self.H(x)
-
-@export
-@cache(maxsize=None)
-def gate_indices(ch_rep:Rep) -> jnp.ndarray:
-    """ Indices for scalars, and also additional scalar gates
-        added by gated(sumrep)"""
-    channels = ch_rep.size()
-    indices = np.arange(channels)
-
-    if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else channels*np.ones(channels,int)
-
-    perm = ch_rep.perm
-    num_nonscalars = 0
-    i=0
-    for rep in ch_rep:
-        if rep!=Scalar and not rep.is_permutation:
-            indices[perm[i:i+rep.size()]] = channels+num_nonscalars
-            num_nonscalars+=1
-        i+=rep.size()
+import jax
+import jax.numpy as jnp
+import objax.nn as nn
+import objax.functional as F
+import numpy as np
+from emlp.reps import T,Rep,Scalar
+from emlp.reps import bilinear_weights
+from emlp.reps.product_sum_reps import SumRep
+import collections
+from emlp.utils import Named,export
+import scipy as sp
+import scipy.special
+import random
+import logging
+from objax.variable import TrainVar, StateVar
+from objax.nn.init import kaiming_normal, xavier_normal
+from objax.module import Module
+import objax
+from objax.nn.init import orthogonal
+from scipy.special import binom
+from jax import jit,vmap
+from functools import lru_cache as cache
+
+def Sequential(*args):
+    """ Wrapped to mimic pytorch syntax"""
+    return nn.Sequential(args)
+
+@export
+class Linear(nn.Linear):
+    """ Basic equivariant Linear layer from repin to repout."""
+    def __init__(self, repin, repout):
+        nin,nout = repin.size(),repout.size()
+        super().__init__(nin,nout)
+        self.b = TrainVar(objax.random.uniform((nout,))/jnp.sqrt(nout))
+        self.w = TrainVar(orthogonal((nout, nin)))
+        self.rep_W = rep_W = repout*repin.T
+        
+        rep_bias = repout
+        self.Pw = rep_W.equivariant_projector()
+        self.Pb = rep_bias.equivariant_projector()
+        logging.info(f"Linear W components:{rep_W.size()} rep:{rep_W}")
+    def __call__(self, x): # (cin) -> (cout)
+        logging.debug(f"linear in shape: {x.shape}")
+        W = (self.Pw@self.w.value.reshape(-1)).reshape(*self.w.value.shape)
+        b = self.Pb@self.b.value
+        out = x@W.T+b
+        logging.debug(f"linear out shape:{out.shape}")
+        return out
+
+@export
+class BiLinear(Module):
+    """ Cheap bilinear layer (adds parameters for each part of the input which can be
+        interpreted as a linear map from a part of the input to the output representation)."""
+    def __init__(self, repin, repout):
+        super().__init__()
+        Wdim, weight_proj = bilinear_weights(repout,repin)
+        self.weight_proj = jit(weight_proj)
+        self.w = TrainVar(objax.random.normal((Wdim,)))
+        logging.info(f"BiW components: dim:{Wdim}")
+
+    def __call__(self, x,training=True):
+        # compatible with non sumreps? need to check
+        W = self.weight_proj(self.w.value,x)
+        out= .1*(W@x[...,None])[...,0]
+        return out
+
+@export
+def gated(ch_rep:Rep) -> Rep:
+    """ Returns the rep with an additional scalar 'gate' for each of the nonscalars and non regular
+        reps in the input. To be used as the output for linear (and or bilinear) layers directly
+        before a :func:`GatedNonlinearity` to produce its scalar gates. """
+    if isinstance(ch_rep,SumRep):
+        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
+    else:
+        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
+
+@export
+class GatedNonlinearity(Module):
+    """ Gated nonlinearity. Requires input to have the additional gate scalars
+        for every non regular and non scalar rep. Applies swish to regular and
+        scalar reps. """
+    def __init__(self,rep):
+        super().__init__()
+        self.rep=rep
+    def __call__(self,values):
+        gate_scalars = values[..., gate_indices(self.rep)]
+        activations = jax.nn.sigmoid(gate_scalars) * values[..., :self.rep.size()]
+        return activations
+
+@export
+class EMLPBlock(Module):
+    """ Basic building block of EMLP consisting of G-Linear, biLinear,
+        and gated nonlinearity. """
+    def __init__(self,rep_in,rep_out):
+        super().__init__()
+        self.linear = Linear(rep_in,gated(rep_out))
+        self.bilinear = BiLinear(gated(rep_out),gated(rep_out))
+        self.nonlinearity = GatedNonlinearity(rep_out)
+    def __call__(self,x):
+        lin = self.linear(x)
+        preact =self.bilinear(lin)+lin
+        return self.nonlinearity(preact)
+
+def uniform_rep_general(ch,*rep_types):
+    """ adds all combinations of (powers of) rep_types up to
+        a total size of ch channels. """
+    raise NotImplementedError
+    
+    
+    
+
+@export
+def uniform_rep(ch,group):
+    """ A heuristic method for allocating a given number of channels (ch)
+        into tensor types. Attempts to distribute the channels evenly across
+        the different tensor types. Useful for hands off layer construction.
+        
+        Args:
+            ch (int): total number of channels
+            group (Group): symmetry group
+
+        Returns:
+            SumRep: The direct sum representation with dim(V)=ch
+        """
+    d = group.d
+    Ns = np.zeros((lambertW(ch,d)+1,),int) # number of tensors of each rank
+    while ch>0:
+        max_rank = lambertW(ch,d) # compute the max rank tensor that can fit up to
+        Ns[:max_rank+1] += np.array([d**(max_rank-r) for r in range(max_rank+1)],dtype=int)
+        ch -= (max_rank+1)*d**max_rank # compute leftover channels
+    sum_rep = sum([binomial_allocation(nr,r,group) for r,nr in enumerate(Ns)])
+    sum_rep,perm = sum_rep.canonicalize()
+    return sum_rep
+
+def lambertW(ch,d):
+    """ Returns solution to x*d^x = ch rounded down."""
+    max_rank=0
+    while (max_rank+1)*d**max_rank <= ch:
+        max_rank += 1
+    max_rank -= 1
+    return max_rank
+
+def binomial_allocation(N,rank,G):
+    """ Allocates N of tensors of total rank r=(p+q) into
+        T(k,r-k) for k=0,1,...,r to match the binomial distribution.
+        For orthogonal representations there is no
+        distinction between p and q, so this op is equivalent to N*T(rank)."""
+    if N==0: return 0
+    n_binoms = N//(2**rank)
+    n_leftover = N%(2**rank)
+    even_split = sum([n_binoms*int(binom(rank,k))*T(k,rank-k,G) for k in range(rank+1)])
+    ps = np.random.binomial(rank,.5,n_leftover)
+    ragged = sum([T(int(p),rank-int(p),G) for p in ps])
+    out = even_split+ragged
+    return out
+
+def uniform_allocation(N,rank):
+    """ Uniformly allocates N of tensors of total rank r=(p+q) into
+        T(k,r-k) for k=0,1,...,r. For orthogonal representations there is no
+        distinction between p and q, so this op is equivalent to N*T(rank)."""
+    if N==0: return 0
+    even_split = sum((N//(rank+1))*T(k,rank-k) for k in range(rank+1))
+    ragged = sum(random.sample([T(k,rank-k) for k in range(rank+1)],N%(rank+1)))
+    return even_split+ragged
+
+@export
+class EMLP(Module,metaclass=Named):
+    """ Equivariant MultiLayer Perceptron. 
+        If the input ch argument is an int, uses the hands off uniform_rep heuristic.
+        If the ch argument is a representation, uses this representation for the hidden layers.
+        Individual layer representations can be set explicitly by using a list of ints or a list of
+        representations, rather than use the same for each hidden layer.
+
+        Args:
+            rep_in (Rep): input representation
+            rep_out (Rep): output representation
+            group (Group): symmetry group
+            ch (int or list[int] or Rep or list[Rep]): number of channels in the hidden layers
+            num_layers (int): number of hidden layers
+
+        Returns:
+            Module: the EMLP objax module."""
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
+        super().__init__()
+        logging.info("Initing EMLP (objax)")
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        
+        self.G=group
+        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
+        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
+        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
+        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
+        #assert all((not rep.G is None) for rep in middle_layers[0].reps)
+        reps = [self.rep_in]+middle_layers
+        logging.info(f"Reps: {reps}")
+        self.network = Sequential(
+            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
+            Linear(reps[-1],self.rep_out)
+        )
+    def __call__(self,x,training=True):
+        return self.network(x)
+
+def swish(x):
+    return jax.nn.sigmoid(x)*x
+
+def MLPBlock(cin,cout):
+    return Sequential(nn.Linear(cin,cout),swish)#,nn.BatchNorm0D(cout,momentum=.9),swish)#,
+
+@export
+class MLP(Module,metaclass=Named):
+    """ Standard baseline MLP. Representations and group are used for shapes only. """
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[MLPBlock(cin,cout) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def __call__(self,x,training=True):
+        y = self.net(x)
+        return y
+
+@export
+class Standardize(Module):
+    """ A convenience module to wrap a given module, normalize its input
+        by some dataset x mean and std stats, and unnormalize its output by
+        the dataset y mean and std stats. 
+
+        Args:
+            model (Module): model to wrap
+            ds_stats ((μx,σx,μy,σy) or (μx,σx)): tuple of the normalization stats
+        
+        Returns:
+            Module: Wrapped model with input normalization (and output unnormalization)"""
+    def __init__(self,model,ds_stats):
+        super().__init__()
+        self.model = model
+        self.ds_stats=ds_stats
+    def __call__(self,x,training):
+        if len(self.ds_stats)==2:
+            muin,sin = self.ds_stats
+            return self.model((x-muin)/sin,training=training)
+        else:
+            muin,sin,muout,sout = self.ds_stats
+            y = sout*self.model((x-muin)/sin,training=training)+muout
+            return y
+
+
+
+# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
+@export
+class MLPode(Module,metaclass=Named):
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def __call__(self,z,t):
+        return self.net(z)
+
+@export
+class EMLPode(EMLP):
+    """ Neural ODE Equivariant MLP. Same args as EMLP."""
+    #__doc__ += EMLP.__doc__.split('.')[1]
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):#@
+        #super().__init__()
+        logging.info("Initing EMLP")
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G=group
+        # Parse ch as a single int, a sequence of ints, a single Rep, a sequence of Reps
+        if isinstance(ch,int): middle_layers = num_layers*[uniform_rep(ch,group)]#[uniform_rep(ch,group) for _ in range(num_layers)]
+        elif isinstance(ch,Rep): middle_layers = num_layers*[ch(group)]
+        else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]
+        #print(middle_layers[0].reps[0].G)
+        #print(self.rep_in.G)
+        reps = [self.rep_in]+middle_layers
+        logging.info(f"Reps: {reps}")
+        self.network = Sequential(
+            *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
+            Linear(reps[-1],self.rep_out)
+        )
+    def __call__(self,z,t):
+        return self.network(z)
+
+# Networks for hamiltonian dynamics (need to sum for batched Hamiltonian grads)
+@export
+class MLPH(Module,metaclass=Named):
+    def __init__(self,rep_in,rep_out,group,ch=384,num_layers=3):
+        super().__init__()
+        self.rep_in =rep_in(group)
+        self.rep_out = rep_out(group)
+        self.G = group
+        chs = [self.rep_in.size()] + num_layers*[ch]
+        cout = self.rep_out.size()
+        logging.info("Initing MLP")
+        self.net = Sequential(
+            *[Sequential(nn.Linear(cin,cout),swish) for cin,cout in zip(chs,chs[1:])],
+            nn.Linear(chs[-1],cout)
+        )
+    def H(self,x):#,training=True):
+        y = self.net(x).sum()
+        return y
+    def __call__(self,x):
+        return self.H(x)
+
+@export
+class EMLPH(EMLP):
+    """ Equivariant EMLP modeling a Hamiltonian for HNN. Same args as EMLP"""
+    #__doc__ += EMLP.__doc__.split('.')[1]
+    def H(self,x):#,training=True):
+        y = self.network(x)
+        return y.sum()
+    def __call__(self,x):
+        return self.H(x)
+
+@export
+@cache(maxsize=None)
+def gate_indices(ch_rep:Rep) -> jnp.ndarray:
+    """ Indices for scalars, and also additional scalar gates
+        added by gated(sumrep)"""
+    channels = ch_rep.size()
+    indices = np.arange(channels)
+
+    if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
+        return indices if ch_rep.is_permutation else channels*np.ones(channels,int)
+
+    perm = ch_rep.perm
+    num_nonscalars = 0
+    i=0
+    for rep in ch_rep:
+        if rep!=Scalar and not rep.is_permutation:
+            indices[perm[i:i+rep.size()]] = channels+num_nonscalars
+            num_nonscalars+=1
+        i+=rep.size()
     return indices
\ No newline at end of file
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 3033d58..6761aa2 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -1,501 +1,501 @@
-import numpy as np
-import jax
-import jax.numpy as jnp
-from jax import jit, device_put,vmap
-import optax
-from sklearn.cluster import KMeans
-from tqdm.auto import tqdm
-from .linear_operator_base import LinearOperator, Lazy
-from .linear_operators import ConcatLazy, I, lazify, densify, LazyJVP
-import logging
-import matplotlib.pyplot as plt
-from functools import reduce
-from emlp.utils import export
-
-from plum import dispatch
-import emlp.reps
-#TODO: add rep,v = flatten({'Scalar':..., 'Vector':...,}), to_dict(rep,vector) returns {'Scalar':..., 'Vector':...,}
-#TODO and simpler rep = flatten({Scalar:2,Vector:10,...}),
-# Do we even want + operator to implement non canonical orderings?
-
-__all__ = ["V","Vector", "Scalar"]
-
-@export
-class Rep(object):
-    r""" The base Representation class. Representation objects formalize the vector space V
-        on which the group acts, the group representation matrix ρ(g), and the Lie Algebra
-        representation dρ(A) in a single object. Representations act as types for vectors coming
-        from V. These types can be manipulated and transformed with the built in operators
-        ⊕,⊗,dual, as well as incorporating custom representations. Rep objects should
-        be immutable.
-
-        At minimum, new representations need to implement ``rho``, ``__str__``."""
-        
-    is_permutation=False
-
-    def rho(self,M):
-        """ Group representation of the matrix M of shape (d,d)"""
-        raise NotImplementedError
-        
-    def drho(self,A): 
-        """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        A = jnp.asarray(densify(A))
-        In = jnp.eye(A.shape[0],dtype=A.dtype)
-        return LazyJVP(self.rho,In,A)
-
-    def __call__(self,G):
-        """ Instantiate (non concrete) representation with a given symmetry group"""
-        raise NotImplementedError
-
-    def __str__(self): raise NotImplementedError 
-    #TODO: separate __repr__ and __str__?
-    def __repr__(self): return str(self)
-    
-    
-    def __eq__(self,other):
-        if type(self)!=type(other): return False
-        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        d2 = tuple([(k,v) for k,v in other.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        return d1==d2
-    def __hash__(self):
-        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
-        return hash((type(self),d1))
-
-    def size(self): 
-        """ Dimension dim(V) of the representation """
-        if hasattr(self,'_size'):
-            return self._size
-        elif self.concrete and hasattr(self,"G"):
-            self._size = self.rho(self.G.sample()).shape[-1]
-            return self._size
-        else: raise NotImplementedError
-
-    def canonicalize(self): 
-        """ An optional method to convert the representation into a canonical form
-            in order to reuse equivalent solutions in the solver. Should return
-            both the canonically ordered representation, along with a permutation
-            which can be applied to vectors of the current representation to achieve
-            that ordering. """
-        return self, np.arange(self.size()) # return canonicalized rep
-    
-    def rho_dense(self,M):
-        """ A convenience function which returns rho(M) as a dense matrix."""
-        return densify(self.rho(M))
-    def drho_dense(self,A):
-        """ A convenience function which returns drho(A) as a dense matrix."""
-        return densify(self.drho(A))
-    
-    def constraint_matrix(self):
-        """ Constructs the equivariance constrant matrix (lazily) by concatenating
-        the constraints (ρ(hᵢ)-I) for i=1,...M and dρ(Aₖ) for k=1,..,D from the generators
-        of the symmetry group. """
-        n = self.size()
-        constraints = []
-        constraints.extend([lazify(self.rho(h))-I(n) for h in self.G.discrete_generators])
-        constraints.extend([lazify(self.drho(A)) for A in self.G.lie_algebra])
-        return ConcatLazy(constraints) if constraints else lazify(jnp.zeros((1,n)))
-
-    solcache = {}
-    def equivariant_basis(self):  
-        """ Computes the equivariant solution basis for the given representation of size N.
-            Canonicalizes problems and caches solutions for reuse. Output [Q (N,r)] """
-        if self==Scalar: return jnp.ones((1,1))
-        canon_rep,perm = self.canonicalize()
-        invperm = np.argsort(perm)
-        if canon_rep not in self.solcache:
-            logging.info(f"{canon_rep} cache miss")
-            logging.info(f"Solving basis for {self}"+(f", for G={self.G}" if hasattr(self,"G") else ""))
-            #if isinstance(group,Trivial): return np.eye(size(rank,group.d))
-            C_lazy = canon_rep.constraint_matrix()
-            if C_lazy.shape[0]*C_lazy.shape[1]>3e7: #Too large to use SVD
-                result = krylov_constraint_solve(C_lazy)
-            else:
-                C_dense = C_lazy.to_dense()
-                result = orthogonal_complement(C_dense)
-            self.solcache[canon_rep]=result
-        return self.solcache[canon_rep][invperm]
-    
-    def equivariant_projector(self):
-        """ Computes the (lazy) projection matrix P=QQᵀ that projects to the equivariant basis."""
-        Q = self.equivariant_basis()
-        Q_lazy = lazify(Q)
-        P = Q_lazy@Q_lazy.H
-        return P
-
-    @property
-    def concrete(self):
-        return hasattr(self,"G") and self.G is not None
-        # if hasattr(self,"_concrete"): return self._concrete
-        # else:
-        #     return hasattr(self,"G") and self.G is not None
-
-    def __add__(self, other):
-        """ Direct sum (⊕) of representations. """
-        if isinstance(other,int):
-            if other==0: return self
-            else: return self+other*Scalar
-        elif emlp.reps.product_sum_reps.both_concrete(self,other):
-            return emlp.reps.product_sum_reps.SumRep(self,other)
-        else:
-            return emlp.reps.product_sum_reps.DeferredSumRep(self,other)
-
-    def __radd__(self,other):
-        if isinstance(other,int): 
-            if other==0: return self
-            else: return other*Scalar+self
-        else: return NotImplemented
-        
-    def __mul__(self,other):
-        """ Tensor sum (⊗) of representations. """
-        return mul_reps(self,other)
-            
-    def __rmul__(self,other):
-        return mul_reps(other,self)
-
-    def __pow__(self,other):
-        """ Iterated tensor product. """
-        assert isinstance(other,int), f"Power only supported for integers, not {type(other)}"
-        assert other>=0, f"Negative powers {other} not supported"
-        return reduce(lambda a,b:a*b,other*[self],Scalar)
-    def __rshift__(self,other):
-        """ Linear maps from self -> other """
-        return other*self.T
-    def __lshift__(self,other):
-        """ Linear maps from other -> self """
-        return self*other.T
-    def __lt__(self, other):
-        """ less than defined to disambiguate ordering multiple different representations.
-            Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        G1,G2 = getattr(self,"G",None),getattr(other,"G",None)
-        if (G1 is None)!=(G2 is None): return G2 is None # products of different groups have no G, and come last
-        if G1 is not None and G1<G2: return True
-        if G1 is not None and G1>G2: return False
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
-        sort_key = lambda rep: (hash(rep.rep),1) if isinstance(rep,Dual) else (hash(rep),0)
-        return sort_key(self) < sort_key(other) #For sorting purposes only
-    def __mod__(self,other): # Wreath product
-        """ Wreath product of representations (Not yet implemented)"""
-        raise NotImplementedError
-    @property
-    def T(self):
-        """ Dual representation V*, rho*, drho*."""
-        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal: return self
-        return Dual(self)
-
-
-@dispatch
-def mul_reps(ra,rb:int):
-    if rb==1: return ra
-    if rb==0: return 0
-    if (not hasattr(ra,'concrete')) or ra.concrete:
-        return emlp.reps.product_sum_reps.SumRep(*(rb*[ra]))
-    else:
-        return emlp.reps.product_sum_reps.DeferredSumRep(*(rb*[ra]))
-
-@dispatch
-def mul_reps(ra:int,rb):
-    return mul_reps(rb,ra)
-
-# Continued with non int cases in product_sum_reps.py
-
-# A possible
-class ScalarRep(Rep):
-    def __init__(self,G=None):
-        self.G=G
-        self.is_permutation = True
-    def __call__(self,G):
-        return ScalarRep(G)
-    def size(self):
-        return 1
-    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-    def __str__(self):
-        return "V⁰"
-    @property
-    def T(self):
-        return self
-    def rho(self,M):
-        return jnp.eye(1)
-    def drho(self,M):
-        return 0*jnp.eye(1)
-    def __hash__(self):
-        return 0
-    def __eq__(self,other):
-        return isinstance(other,ScalarRep)
-    def __lt__(self,other):
-        return not isinstance(other,ScalarRep) # scalars always come first
-    def __mul__(self,other):
-        if isinstance(other,int): return super().__mul__(other)
-        return other
-    def __rmul__(self,other):
-        if isinstance(other,int): return super().__rmul__(other)
-        return other
-    @property
-    def concrete(self):
-        return True
-
-class Base(Rep):
-    """ Base representation V of a group."""
-    def __init__(self,G=None):
-        self.G=G
-        if G is not None: self.is_permutation = G.is_permutation
-    def __call__(self,G):
-        return self.__class__(G)
-    def rho(self,M):
-        if hasattr(self,'G') and isinstance(M,dict): M=M[self.G]
-        return M
-    def drho(self,A):
-        if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
-        return A
-    def size(self):
-        assert self.G is not None, f"must know G to find size for rep={self}"
-        return self.G.d
-    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-    def __str__(self):
-        return "V"# +(f"_{self.G}" if self.G is not None else "")
-    
-    def __hash__(self):
-        return hash((type(self),self.G))
-    def __eq__(self,other):
-        return type(other)==type(self) and self.G==other.G
-    # @property
-    # def T(self):
-    #     return Dual(self.G)
-
-class Dual(Rep):
-    def __init__(self,rep):
-        self.rep = rep
-        self.G=rep.G
-        if hasattr(rep,"is_permutation"): self.is_permutation = rep.is_permutation
-    def __call__(self,G):
-        return self.rep(G).T
-    def rho(self,M):
-        rho = self.rep.rho(M)
-        rhoinvT = rho.invT() if isinstance(rho,LinearOperator) else jnp.linalg.inv(rho).T
-        return rhoinvT
-    def drho(self,A):
-        return -self.rep.drho(A).T
-    def __str__(self):
-        return str(self.rep)+"*"
-    def __repr__(self): return str(self)
-    @property
-    def T(self):
-        return self.rep
-    def __eq__(self,other):
-        return type(other)==type(self) and self.rep==other.rep
-    def __hash__(self):
-        return hash((type(self),self.rep))
-    def size(self):
-        return self.rep.size()
-        
-V=Vector= Base()  #: Alias V or Vector for an instance of the Base representation of a group
-
-Scalar = ScalarRep()#: An instance of the Scalar representation, equivalent to V**0
-
-@export
-def T(p,q=0,G=None):
-    """ A convenience function for creating rank (p,q) tensors."""
-    return (V**p*V.T**q)(G)
-
-def orthogonal_complement(proj):
-    """ Computes the orthogonal complement to a given matrix proj"""
-    U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
-    if not jnp.isfinite(S).all(): # the single precision LAPACK routine did not converge
-        dtype = np.complex128 if jnp.iscomplexobj(proj) else np.float64
-        _,S,VH = np.linalg.svd(np.asarray(proj,dtype=dtype),full_matrices=True)
-        S,VH = jnp.asarray(S),jnp.asarray(VH,dtype=proj.dtype)
-    rank = (S>1e-5).sum()
-    return VH[rank:].conj().T
-
-def krylov_constraint_solve(C,tol=1e-5):
-    """ Computes the solution basis Q for the linear constraint CQ=0  and QᵀQ=I
-        up to specified tolerance with C expressed as a LinearOperator. """
-    r = 5
-    if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
-    found_rank=5
-    while found_rank==r:
-        r *= 2 # Iterative doubling of rank until large enough to include the full solution space
-        if C.shape[0]*r>2e9:
-            logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
-            break
-        Q = krylov_constraint_solve_upto_r(C,r,tol)
-        found_rank = Q.shape[-1]
-    return Q
-
-def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
-    """ Iterative routine to compute the solution basis to the constraint CQ=0 and QᵀQ=I
-        up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
-        objective |CQ|^2, which provably converges at an exponential rate."""
-    W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
-    W = device_put(W)
-    opt_init,opt_update = optax.sgd(lr,.9)
-    opt_state = opt_init(W)  # init stats
-
-    def loss(W):
-        return (jnp.absolute(C@W)**2).sum()/2 # added absolute for complex support
-
-    loss_and_grad = jit(jax.value_and_grad(loss))
-    # setup progress bar
-    pbar = tqdm(total=100,desc=f'Krylov Solving for Equivariant Subspace r<={r}',
-    bar_format="{l_bar}{bar}| {n:.3g}/{total_fmt} [{elapsed}<{remaining}, {rate_fmt}{postfix}]")
-    prog_val = 0
-    lstart, _ = loss_and_grad(W)
-    
-    for i in range(20000):
-        
-        lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
-        W = optax.apply_updates(W, updates)
-        # update progress bar
-        progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-        progress = min(100-prog_val,progress)
-        if progress>0:
-            prog_val += progress
-            pbar.update(progress)
-
-        if jnp.sqrt(lossval) <tol: # check convergence condition
-            pbar.close()
-            break # has converged
-        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
-            logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
-            if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
-            return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
-    else: raise ConvergenceError("Failed to converge.")
-    # Orthogonalize solution at the end
-    U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
-    # Would like to do economy SVD here (to not have the unecessary O(n^2) memory cost) 
-    # but this is not supported in numpy (or Jax) unfortunately.
-    rank = (S>10*tol).sum()
-    Q = device_put(U[:,:rank])
-    # final_L
-    final_L = loss_and_grad(Q)[0]
-    if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
-    assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
-        above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
-    #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-    return Q
-
-class ConvergenceError(Exception): pass
-
-@export
-def sparsify_basis(Q,lr=1e-2): #(n,r)
-    """ Convenience function to attempt to sparsify a given basis by applying an orthogonal transformation
-        W, Q' = QW where Q' has only 1s, 0s and -1s. Notably this method does not have the same convergence
-        gauruntees of krylov_constraint_solve and can fail (even silently). Intended to be used only for
-        visualization purposes, use at your own risk. """
-    W = np.random.randn(Q.shape[-1],Q.shape[-1])
-    W,_ = np.linalg.qr(W)
-    W = device_put(W.astype(jnp.float32))
-    opt_init,opt_update = optax.adam(lr)#optax.sgd(1e2,.9)#optax.adam(lr)#optax.sgd(3e-3,.9)#optax.adam(lr)
-    opt_update = jit(opt_update)
-    opt_state = opt_init(W)  # init stats
-
-    def loss(W):
-        return jnp.abs(Q@W.T).mean() + .1*(jnp.abs(W.T@W-jnp.eye(W.shape[0]))).mean()+.01*jax.numpy.linalg.slogdet(W)[1]**2
-
-    loss_and_grad = jit(jax.value_and_grad(loss))
-
-    for i in tqdm(range(3000),desc=f'sparsifying basis'):
-        lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
-        W = optax.apply_updates(W, updates)
-        #W,_ = np.linalg.qr(W)
-        if lossval>1e2 and i>100: # Solve diverged due to too high learning rate
-            logging.warning(f"basis sparsification diverged, trying lower learning rate {lr/3:.2e}")
-            return sparsify_basis(Q,lr=lr/3)
-    Q = np.copy(Q@W.T)
-    Q[np.abs(Q)<1e-2]=0
-    Q[np.abs(Q)>1e-2] /= np.abs(Q[np.abs(Q)>1e-2])
-    A = Q@(1+np.arange(Q.shape[-1]))
-    if len(np.unique(np.abs(A)))!=Q.shape[-1]+1 and len(np.unique(np.abs(A)))!=Q.shape[-1]:
-        logging.error(f"Basis elems did not separate: found only {len(np.unique(np.abs(A)))}/{Q.shape[-1]}")
-        #raise ConvergenceError(f"Basis elems did not separate: found only {len(np.unique(A))}/{Q.shape[-1]}")
-    return Q
-
-#@partial(jit,static_argnums=(0,1))
-@export
-def bilinear_weights(out_rep,in_rep):
-    #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    SumRep = emlp.reps.product_sum_reps.SumRep
-    as_sum = lambda rep: rep if isinstance(rep,SumRep) else SumRep(rep)
-    W_rep,W_perm = as_sum(in_rep>>out_rep).canonicalize()
-    inv_perm = np.argsort(W_perm)
-    mat_shape = out_rep.size(),in_rep.size()
-    x_rep=as_sum(in_rep)
-    W_multiplicities = W_rep.reps
-    x_multiplicities = x_rep.reps
-    x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-    nelems = lambda nx,rep: min(nx,rep.size())
-    active_dims = sum([W_multiplicities.get(rep,0)*nelems(n,rep) for rep,n in x_multiplicities.items()])
-    reduced_indices_dict = {rep:ids[np.random.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
-                                for rep,ids in x_rep.as_dict(np.arange(x_rep.size())).items()}
-    # Apply the projections for each rank, concatenate, and permute back to orig rank order
-    @jit
-    def lazy_projection(params,x): # (r,), (*c) #TODO: find out why backwards of this function is so slow
-        bshape = x.shape[:-1]
-        x = x.reshape(-1,x.shape[-1])
-        bs = x.shape[0]
-        i=0
-        Ws = []
-        for rep, W_mult in W_multiplicities.items():
-            if rep not in x_multiplicities:
-                Ws.append(jnp.zeros((bs,W_mult*rep.size())))
-                continue
-            x_mult = x_multiplicities[rep]
-            n = nelems(x_mult,rep)
-            i_end = i+W_mult*n
-            bids =  reduced_indices_dict[rep]
-            bilinear_params = params[i:i_end].reshape(W_mult,n) # bs,nK-> (nK,bs)
-            i = i_end  # (bs,W_mult,d^r) = (W_mult,n)@(n,d^r,bs)
-            bilinear_elems = bilinear_params@x[...,bids].T.reshape(n,rep.size()*bs)
-            bilinear_elems = bilinear_elems.reshape(W_mult*rep.size(),bs).T
-            Ws.append(bilinear_elems)
-        Ws = jnp.concatenate(Ws,axis=-1) #concatenate over rep axis
-        return Ws[...,inv_perm].reshape(*bshape,*mat_shape) # reorder to original rank ordering
-    return active_dims,lazy_projection
-        
-# @jit
-# def mul_part(bparams,x,bids):
-#     b = prod(x.shape[:-1])
-#     return (bparams@x[...,bids].T.reshape(bparams.shape[-1],-1)).reshape(-1,b).T
-
-@export
-def vis(repin,repout,cluster=True):
-    """ A function to visualize the basis of equivariant maps repin>>repout
-        as an image. Only use cluster=True if you know Pv will only have
-        r distinct values (true for G<S(n) but not true for many continuous groups)."""
-    rep = (repin>>repout)
-    P = rep.equivariant_projector() # compute the equivariant basis
-    Q = rep.equivariant_basis()
-    v = np.random.randn(P.shape[1])  # sample random vector
-    v = np.round(P@v,decimals=4)  # project onto equivariant subspace (and round)
-    if cluster: # cluster nearby values for better color separation in plot
-        v = KMeans(n_clusters=Q.shape[-1]).fit(v.reshape(-1,1)).labels_
-    plt.imshow(v.reshape(repout.size(),repin.size()))
-    plt.axis('off')
-
-
-def scale_adjusted_rel_error(t1,t2,g):
-    error = jnp.sqrt(jnp.mean(jnp.abs(t1-t2)**2))
-    tscale = jnp.sqrt(jnp.mean(jnp.abs(t1)**2)) + jnp.sqrt(jnp.mean(jnp.abs(t2)**2))
-    gscale = jnp.sqrt(jnp.mean(jnp.abs(g-jnp.eye(g.shape[-1]))**2))
-    scale = jnp.maximum(tscale,gscale)
-    return error/jnp.maximum(scale,1e-7)
-
-@export
-def equivariance_error(W,repin,repout,G):
-    """ Computes the equivariance relative error rel_err(Wρ₁(g),ρ₂(g)W)
-        of the matrix W (dim(repout),dim(repin)) [or basis Q: (dim(repout)xdim(repin), r)]
-        according to the input and output representations and group G. """
-    W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]
-
-    # Sample 5 group elements and verify the equivariance for each
-    gs = G.samples(5)
-    ring = vmap(repin.rho_dense)(gs)[:,None]
-    routg = vmap(repout.rho_dense)(gs)[:,None]
-    equiv_err = scale_adjusted_rel_error(W@ring,routg@W,gs)
-    return equiv_err
-
+import numpy as np
+import jax
+import jax.numpy as jnp
+from jax import jit, device_put,vmap
+import optax
+from sklearn.cluster import KMeans
+from tqdm.auto import tqdm
+from .linear_operator_base import LinearOperator, Lazy
+from .linear_operators import ConcatLazy, I, lazify, densify, LazyJVP
+import logging
+import matplotlib.pyplot as plt
+from functools import reduce
+from emlp.utils import export
+
+from plum import dispatch
+import emlp.reps
+#TODO: add rep,v = flatten({'Scalar':..., 'Vector':...,}), to_dict(rep,vector) returns {'Scalar':..., 'Vector':...,}
+#TODO and simpler rep = flatten({Scalar:2,Vector:10,...}),
+# Do we even want + operator to implement non canonical orderings?
+
+__all__ = ["V","Vector", "Scalar"]
+
+@export
+class Rep(object):
+    r""" The base Representation class. Representation objects formalize the vector space V
+        on which the group acts, the group representation matrix ρ(g), and the Lie Algebra
+        representation dρ(A) in a single object. Representations act as types for vectors coming
+        from V. These types can be manipulated and transformed with the built in operators
+        ⊕,⊗,dual, as well as incorporating custom representations. Rep objects should
+        be immutable.
+
+        At minimum, new representations need to implement ``rho``, ``__str__``."""
+        
+    is_permutation=False
+
+    def rho(self,M):
+        """ Group representation of the matrix M of shape (d,d)"""
+        raise NotImplementedError
+        
+    def drho(self,A): 
+        """ Lie Algebra representation of the matrix A of shape (d,d)"""
+        A = jnp.asarray(densify(A))
+        In = jnp.eye(A.shape[0],dtype=A.dtype)
+        return LazyJVP(self.rho,In,A)
+
+    def __call__(self,G):
+        """ Instantiate (non concrete) representation with a given symmetry group"""
+        raise NotImplementedError
+
+    def __str__(self): raise NotImplementedError 
+    #TODO: separate __repr__ and __str__?
+    def __repr__(self): return str(self)
+    
+    
+    def __eq__(self,other):
+        if type(self)!=type(other): return False
+        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        d2 = tuple([(k,v) for k,v in other.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        return d1==d2
+    def __hash__(self):
+        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])
+        return hash((type(self),d1))
+
+    def size(self): 
+        """ Dimension dim(V) of the representation """
+        if hasattr(self,'_size'):
+            return self._size
+        elif self.concrete and hasattr(self,"G"):
+            self._size = self.rho(self.G.sample()).shape[-1]
+            return self._size
+        else: raise NotImplementedError
+
+    def canonicalize(self): 
+        """ An optional method to convert the representation into a canonical form
+            in order to reuse equivalent solutions in the solver. Should return
+            both the canonically ordered representation, along with a permutation
+            which can be applied to vectors of the current representation to achieve
+            that ordering. """
+        return self, np.arange(self.size()) # return canonicalized rep
+    
+    def rho_dense(self,M):
+        """ A convenience function which returns rho(M) as a dense matrix."""
+        return densify(self.rho(M))
+    def drho_dense(self,A):
+        """ A convenience function which returns drho(A) as a dense matrix."""
+        return densify(self.drho(A))
+    
+    def constraint_matrix(self):
+        """ Constructs the equivariance constrant matrix (lazily) by concatenating
+        the constraints (ρ(hᵢ)-I) for i=1,...M and dρ(Aₖ) for k=1,..,D from the generators
+        of the symmetry group. """
+        n = self.size()
+        constraints = []
+        constraints.extend([lazify(self.rho(h))-I(n) for h in self.G.discrete_generators])
+        constraints.extend([lazify(self.drho(A)) for A in self.G.lie_algebra])
+        return ConcatLazy(constraints) if constraints else lazify(jnp.zeros((1,n)))
+
+    solcache = {}
+    def equivariant_basis(self):  
+        """ Computes the equivariant solution basis for the given representation of size N.
+            Canonicalizes problems and caches solutions for reuse. Output [Q (N,r)] """
+        if self==Scalar: return jnp.ones((1,1))
+        canon_rep,perm = self.canonicalize()
+        invperm = np.argsort(perm)
+        if canon_rep not in self.solcache:
+            logging.info(f"{canon_rep} cache miss")
+            logging.info(f"Solving basis for {self}"+(f", for G={self.G}" if hasattr(self,"G") else ""))
+            #if isinstance(group,Trivial): return np.eye(size(rank,group.d))
+            C_lazy = canon_rep.constraint_matrix()
+            if C_lazy.shape[0]*C_lazy.shape[1]>3e7: #Too large to use SVD
+                result = krylov_constraint_solve(C_lazy)
+            else:
+                C_dense = C_lazy.to_dense()
+                result = orthogonal_complement(C_dense)
+            self.solcache[canon_rep]=result
+        return self.solcache[canon_rep][invperm]
+    
+    def equivariant_projector(self):
+        """ Computes the (lazy) projection matrix P=QQᵀ that projects to the equivariant basis."""
+        Q = self.equivariant_basis()
+        Q_lazy = lazify(Q)
+        P = Q_lazy@Q_lazy.H
+        return P
+
+    @property
+    def concrete(self):
+        return hasattr(self,"G") and self.G is not None
+        # if hasattr(self,"_concrete"): return self._concrete
+        # else:
+        #     return hasattr(self,"G") and self.G is not None
+
+    def __add__(self, other):
+        """ Direct sum (⊕) of representations. """
+        if isinstance(other,int):
+            if other==0: return self
+            else: return self+other*Scalar
+        elif emlp.reps.product_sum_reps.both_concrete(self,other):
+            return emlp.reps.product_sum_reps.SumRep(self,other)
+        else:
+            return emlp.reps.product_sum_reps.DeferredSumRep(self,other)
+
+    def __radd__(self,other):
+        if isinstance(other,int): 
+            if other==0: return self
+            else: return other*Scalar+self
+        else: return NotImplemented
+        
+    def __mul__(self,other):
+        """ Tensor sum (⊗) of representations. """
+        return mul_reps(self,other)
+            
+    def __rmul__(self,other):
+        return mul_reps(other,self)
+
+    def __pow__(self,other):
+        """ Iterated tensor product. """
+        assert isinstance(other,int), f"Power only supported for integers, not {type(other)}"
+        assert other>=0, f"Negative powers {other} not supported"
+        return reduce(lambda a,b:a*b,other*[self],Scalar)
+    def __rshift__(self,other):
+        """ Linear maps from self -> other """
+        return other*self.T
+    def __lshift__(self,other):
+        """ Linear maps from other -> self """
+        return self*other.T
+    def __lt__(self, other):
+        """ less than defined to disambiguate ordering multiple different representations.
+            Canonical ordering is determined first by Group, then by size, then by hash"""
+        if other==Scalar: return False
+        G1,G2 = getattr(self,"G",None),getattr(other,"G",None)
+        if (G1 is None)!=(G2 is None): return G2 is None # products of different groups have no G, and come last
+        if G1 is not None and G1<G2: return True
+        if G1 is not None and G1>G2: return False
+        if self.size()<other.size(): return True
+        if self.size()>other.size(): return False
+        sort_key = lambda rep: (hash(rep.rep),1) if isinstance(rep,Dual) else (hash(rep),0)
+        return sort_key(self) < sort_key(other) #For sorting purposes only
+    def __mod__(self,other): # Wreath product
+        """ Wreath product of representations (Not yet implemented)"""
+        raise NotImplementedError
+    @property
+    def T(self):
+        """ Dual representation V*, rho*, drho*."""
+        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal: return self
+        return Dual(self)
+
+
+@dispatch
+def mul_reps(ra,rb:int):
+    if rb==1: return ra
+    if rb==0: return 0
+    if (not hasattr(ra,'concrete')) or ra.concrete:
+        return emlp.reps.product_sum_reps.SumRep(*(rb*[ra]))
+    else:
+        return emlp.reps.product_sum_reps.DeferredSumRep(*(rb*[ra]))
+
+@dispatch
+def mul_reps(ra:int,rb):
+    return mul_reps(rb,ra)
+
+# Continued with non int cases in product_sum_reps.py
+
+# A possible
+class ScalarRep(Rep):
+    def __init__(self,G=None):
+        self.G=G
+        self.is_permutation = True
+    def __call__(self,G):
+        return ScalarRep(G)
+    def size(self):
+        return 1
+    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
+    def __str__(self):
+        return "V⁰"
+    @property
+    def T(self):
+        return self
+    def rho(self,M):
+        return jnp.eye(1)
+    def drho(self,M):
+        return 0*jnp.eye(1)
+    def __hash__(self):
+        return 0
+    def __eq__(self,other):
+        return isinstance(other,ScalarRep)
+    def __lt__(self,other):
+        return not isinstance(other,ScalarRep) # scalars always come first
+    def __mul__(self,other):
+        if isinstance(other,int): return super().__mul__(other)
+        return other
+    def __rmul__(self,other):
+        if isinstance(other,int): return super().__rmul__(other)
+        return other
+    @property
+    def concrete(self):
+        return True
+
+class Base(Rep):
+    """ Base representation V of a group."""
+    def __init__(self,G=None):
+        self.G=G
+        if G is not None: self.is_permutation = G.is_permutation
+    def __call__(self,G):
+        return self.__class__(G)
+    def rho(self,M):
+        if hasattr(self,'G') and isinstance(M,dict): M=M[self.G]
+        return M
+    def drho(self,A):
+        if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
+        return A
+    def size(self):
+        assert self.G is not None, f"must know G to find size for rep={self}"
+        return self.G.d
+    def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
+    def __str__(self):
+        return "V"# +(f"_{self.G}" if self.G is not None else "")
+    
+    def __hash__(self):
+        return hash((type(self),self.G))
+    def __eq__(self,other):
+        return type(other)==type(self) and self.G==other.G
+    # @property
+    # def T(self):
+    #     return Dual(self.G)
+
+class Dual(Rep):
+    def __init__(self,rep):
+        self.rep = rep
+        self.G=rep.G
+        if hasattr(rep,"is_permutation"): self.is_permutation = rep.is_permutation
+    def __call__(self,G):
+        return self.rep(G).T
+    def rho(self,M):
+        rho = self.rep.rho(M)
+        rhoinvT = rho.invT() if isinstance(rho,LinearOperator) else jnp.linalg.inv(rho).T
+        return rhoinvT
+    def drho(self,A):
+        return -self.rep.drho(A).T
+    def __str__(self):
+        return str(self.rep)+"*"
+    def __repr__(self): return str(self)
+    @property
+    def T(self):
+        return self.rep
+    def __eq__(self,other):
+        return type(other)==type(self) and self.rep==other.rep
+    def __hash__(self):
+        return hash((type(self),self.rep))
+    def size(self):
+        return self.rep.size()
+        
+V=Vector= Base()  #: Alias V or Vector for an instance of the Base representation of a group
+
+Scalar = ScalarRep()#: An instance of the Scalar representation, equivalent to V**0
+
+@export
+def T(p,q=0,G=None):
+    """ A convenience function for creating rank (p,q) tensors."""
+    return (V**p*V.T**q)(G)
+
+def orthogonal_complement(proj):
+    """ Computes the orthogonal complement to a given matrix proj"""
+    U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(S).all(): # the single precision LAPACK routine did not converge
+        dtype = np.complex128 if jnp.iscomplexobj(proj) else np.float64
+        _,S,VH = np.linalg.svd(np.asarray(proj,dtype=dtype),full_matrices=True)
+        S,VH = jnp.asarray(S),jnp.asarray(VH,dtype=proj.dtype)
+    rank = (S>1e-5).sum()
+    return VH[rank:].conj().T
+
+def krylov_constraint_solve(C,tol=1e-5):
+    """ Computes the solution basis Q for the linear constraint CQ=0  and QᵀQ=I
+        up to specified tolerance with C expressed as a LinearOperator. """
+    r = 5
+    if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
+    found_rank=5
+    while found_rank==r:
+        r *= 2 # Iterative doubling of rank until large enough to include the full solution space
+        if C.shape[0]*r>2e9:
+            logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
+            break
+        Q = krylov_constraint_solve_upto_r(C,r,tol)
+        found_rank = Q.shape[-1]
+    return Q
+
+def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
+    """ Iterative routine to compute the solution basis to the constraint CQ=0 and QᵀQ=I
+        up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
+        objective |CQ|^2, which provably converges at an exponential rate."""
+    W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
+    W = device_put(W)
+    opt_init,opt_update = optax.sgd(lr,.9)
+    opt_state = opt_init(W)  # init stats
+
+    def loss(W):
+        return (jnp.absolute(C@W)**2).sum()/2 # added absolute for complex support
+
+    loss_and_grad = jit(jax.value_and_grad(loss))
+    # setup progress bar
+    pbar = tqdm(total=100,desc=f'Krylov Solving for Equivariant Subspace r<={r}',
+    bar_format="{l_bar}{bar}| {n:.3g}/{total_fmt} [{elapsed}<{remaining}, {rate_fmt}{postfix}]")
+    prog_val = 0
+    lstart, _ = loss_and_grad(W)
+    
+    for i in range(20000):
+        
+        lossval, grad = loss_and_grad(W)
+        updates, opt_state = opt_update(grad, opt_state, W)
+        W = optax.apply_updates(W, updates)
+        # update progress bar
+        progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
+        progress = min(100-prog_val,progress)
+        if progress>0:
+            prog_val += progress
+            pbar.update(progress)
+
+        if jnp.sqrt(lossval) <tol: # check convergence condition
+            pbar.close()
+            break # has converged
+        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
+            logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
+            if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
+            return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
+    else: raise ConvergenceError("Failed to converge.")
+    # Orthogonalize solution at the end
+    U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
+    # Would like to do economy SVD here (to not have the unecessary O(n^2) memory cost) 
+    # but this is not supported in numpy (or Jax) unfortunately.
+    rank = (S>10*tol).sum()
+    Q = device_put(U[:,:rank])
+    # final_L
+    final_L = loss_and_grad(Q)[0]
+    if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
+    scutoff = (S[rank] if r>rank else 0)
+    assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
+        above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
+    #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
+    return Q
+
+class ConvergenceError(Exception): pass
+
+@export
+def sparsify_basis(Q,lr=1e-2): #(n,r)
+    """ Convenience function to attempt to sparsify a given basis by applying an orthogonal transformation
+        W, Q' = QW where Q' has only 1s, 0s and -1s. Notably this method does not have the same convergence
+        gauruntees of krylov_constraint_solve and can fail (even silently). Intended to be used only for
+        visualization purposes, use at your own risk. """
+    W = np.random.randn(Q.shape[-1],Q.shape[-1])
+    W,_ = np.linalg.qr(W)
+    W = device_put(W.astype(jnp.float32))
+    opt_init,opt_update = optax.adam(lr)#optax.sgd(1e2,.9)#optax.adam(lr)#optax.sgd(3e-3,.9)#optax.adam(lr)
+    opt_update = jit(opt_update)
+    opt_state = opt_init(W)  # init stats
+
+    def loss(W):
+        return jnp.abs(Q@W.T).mean() + .1*(jnp.abs(W.T@W-jnp.eye(W.shape[0]))).mean()+.01*jax.numpy.linalg.slogdet(W)[1]**2
+
+    loss_and_grad = jit(jax.value_and_grad(loss))
+
+    for i in tqdm(range(3000),desc=f'sparsifying basis'):
+        lossval, grad = loss_and_grad(W)
+        updates, opt_state = opt_update(grad, opt_state, W)
+        W = optax.apply_updates(W, updates)
+        #W,_ = np.linalg.qr(W)
+        if lossval>1e2 and i>100: # Solve diverged due to too high learning rate
+            logging.warning(f"basis sparsification diverged, trying lower learning rate {lr/3:.2e}")
+            return sparsify_basis(Q,lr=lr/3)
+    Q = np.copy(Q@W.T)
+    Q[np.abs(Q)<1e-2]=0
+    Q[np.abs(Q)>1e-2] /= np.abs(Q[np.abs(Q)>1e-2])
+    A = Q@(1+np.arange(Q.shape[-1]))
+    if len(np.unique(np.abs(A)))!=Q.shape[-1]+1 and len(np.unique(np.abs(A)))!=Q.shape[-1]:
+        logging.error(f"Basis elems did not separate: found only {len(np.unique(np.abs(A)))}/{Q.shape[-1]}")
+        #raise ConvergenceError(f"Basis elems did not separate: found only {len(np.unique(A))}/{Q.shape[-1]}")
+    return Q
+
+#@partial(jit,static_argnums=(0,1))
+@export
+def bilinear_weights(out_rep,in_rep):
+    #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    as_sum = lambda rep: rep if isinstance(rep,SumRep) else SumRep(rep)
+    W_rep,W_perm = as_sum(in_rep>>out_rep).canonicalize()
+    inv_perm = np.argsort(W_perm)
+    mat_shape = out_rep.size(),in_rep.size()
+    x_rep=as_sum(in_rep)
+    W_multiplicities = W_rep.reps
+    x_multiplicities = x_rep.reps
+    x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
+    nelems = lambda nx,rep: min(nx,rep.size())
+    active_dims = sum([W_multiplicities.get(rep,0)*nelems(n,rep) for rep,n in x_multiplicities.items()])
+    reduced_indices_dict = {rep:ids[np.random.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
+                                for rep,ids in x_rep.as_dict(np.arange(x_rep.size())).items()}
+    # Apply the projections for each rank, concatenate, and permute back to orig rank order
+    @jit
+    def lazy_projection(params,x): # (r,), (*c) #TODO: find out why backwards of this function is so slow
+        bshape = x.shape[:-1]
+        x = x.reshape(-1,x.shape[-1])
+        bs = x.shape[0]
+        i=0
+        Ws = []
+        for rep, W_mult in W_multiplicities.items():
+            if rep not in x_multiplicities:
+                Ws.append(jnp.zeros((bs,W_mult*rep.size())))
+                continue
+            x_mult = x_multiplicities[rep]
+            n = nelems(x_mult,rep)
+            i_end = i+W_mult*n
+            bids =  reduced_indices_dict[rep]
+            bilinear_params = params[i:i_end].reshape(W_mult,n) # bs,nK-> (nK,bs)
+            i = i_end  # (bs,W_mult,d^r) = (W_mult,n)@(n,d^r,bs)
+            bilinear_elems = bilinear_params@x[...,bids].T.reshape(n,rep.size()*bs)
+            bilinear_elems = bilinear_elems.reshape(W_mult*rep.size(),bs).T
+            Ws.append(bilinear_elems)
+        Ws = jnp.concatenate(Ws,axis=-1) #concatenate over rep axis
+        return Ws[...,inv_perm].reshape(*bshape,*mat_shape) # reorder to original rank ordering
+    return active_dims,lazy_projection
+        
+# @jit
+# def mul_part(bparams,x,bids):
+#     b = prod(x.shape[:-1])
+#     return (bparams@x[...,bids].T.reshape(bparams.shape[-1],-1)).reshape(-1,b).T
+
+@export
+def vis(repin,repout,cluster=True):
+    """ A function to visualize the basis of equivariant maps repin>>repout
+        as an image. Only use cluster=True if you know Pv will only have
+        r distinct values (true for G<S(n) but not true for many continuous groups)."""
+    rep = (repin>>repout)
+    P = rep.equivariant_projector() # compute the equivariant basis
+    Q = rep.equivariant_basis()
+    v = np.random.randn(P.shape[1])  # sample random vector
+    v = np.round(P@v,decimals=4)  # project onto equivariant subspace (and round)
+    if cluster: # cluster nearby values for better color separation in plot
+        v = KMeans(n_clusters=Q.shape[-1]).fit(v.reshape(-1,1)).labels_
+    plt.imshow(v.reshape(repout.size(),repin.size()))
+    plt.axis('off')
+
+
+def scale_adjusted_rel_error(t1,t2,g):
+    error = jnp.sqrt(jnp.mean(jnp.abs(t1-t2)**2))
+    tscale = jnp.sqrt(jnp.mean(jnp.abs(t1)**2)) + jnp.sqrt(jnp.mean(jnp.abs(t2)**2))
+    gscale = jnp.sqrt(jnp.mean(jnp.abs(g-jnp.eye(g.shape[-1]))**2))
+    scale = jnp.maximum(tscale,gscale)
+    return error/jnp.maximum(scale,1e-7)
+
+@export
+def equivariance_error(W,repin,repout,G):
+    """ Computes the equivariance relative error rel_err(Wρ₁(g),ρ₂(g)W)
+        of the matrix W (dim(repout),dim(repin)) [or basis Q: (dim(repout)xdim(repin), r)]
+        according to the input and output representations and group G. """
+    W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]
+
+    # Sample 5 group elements and verify the equivariance for each
+    gs = G.samples(5)
+    ring = vmap(repin.rho_dense)(gs)[:,None]
+    routg = vmap(repout.rho_dense)(gs)[:,None]
+    equiv_err = scale_adjusted_rel_error(W@ring,routg@W,gs)
+    return equiv_err
+
 import emlp.groups # Why is this necessary to avoid circular import?
\ No newline at end of file
-- 
2.43.0


From a8f03906c7dd7d4b13d7ce1e78b9b58802f1de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 34/38] fix: iterative solver finds the complex solutions of
 complex constraints

---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 6761aa2..5604b49 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -329,6 +329,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         objective |CQ|^2, which provably converges at an exponential rate."""
     W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
     W = device_put(W)
+    if jnp.iscomplexobj(C@W): W = W+1j*device_put(np.random.randn(*W.shape)/np.sqrt(C.shape[-1]))
     opt_init,opt_update = optax.sgd(lr,.9)
     opt_state = opt_init(W)  # init stats
 
@@ -345,7 +346,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W)
         W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-- 
2.43.0


From 94f3f1e4d5a1e7d6f59ffed2eef1537184109528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 35/38] fix: iterative solver when every vector of a small
 space is a solution

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 5604b49..19e0b82 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -372,7 +372,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From e05bf7438e633da8f41b4f3d676001a537257ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 36/38] fix: iterative solver returns the vectors that met the
 tolerance, not those one step later

---
 emlp/reps/representation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 19e0b82..4ea1c8d 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -346,8 +346,6 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad.conj(), opt_state, W)
-        W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
         progress = min(100-prog_val,progress)
@@ -362,6 +360,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
             logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
             if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
             return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W)
+        W = optax.apply_updates(W, updates)
     else: raise ConvergenceError("Failed to converge.")
     # Orthogonalize solution at the end
     U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
-- 
2.43.0


From 6a3400da08571f771bbe49349fd411fc4444bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 37/38] fix: iterative solver could miss a solution when there
 are exactly as many as start vectors

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 4ea1c8d..445a42a 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -314,7 +314,7 @@ def krylov_constraint_solve(C,tol=1e-5):
     r = 5
     if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
     found_rank=5
-    while found_rank==r:
+    while found_rank>=r-1: # (r random vectors may be too close to dependent to tell r solutions from r-1)
         r *= 2 # Iterative doubling of rank until large enough to include the full solution space
         if C.shape[0]*r>2e9:
             logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
-- 
2.43.0


From 8cef71932b6d061ae66831731fdc54191039eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 38/38] fix: binding a bound sum or product again to a group of
 another dimension does not scramble it

---
 emlp/reps/product_sum_reps.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index f3e74ab..035331a 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -10,6 +10,14 @@ from functools import reduce
 from collections import defaultdict
 from plum import dispatch
 
+def rebind(rep,constructor,G):
+    """ A sum or product rep that is bound to a group already, bound to another group G instead."""
+    old_parts = [part for part,c in rep.reps.items() for _ in range(c)]
+    parts = [part(G) for part in old_parts]
+    if (rep.perm==np.arange(len(rep.perm))).all(): return constructor(*parts)
+    assert all(a.size()==b.size() for a,b in zip(parts,old_parts)), f"the permutation of {rep} does not fit {G}"
+    return constructor(*parts,extra_perm=rep.perm)
+
 class SumRep(Rep):
     def __init__(self,*reps,extra_perm=None):#repcounter,repperm=None):
         """ Constructs a tensor type based on a list of tensor ranks
@@ -66,7 +74,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+        return rebind(self,SumRep,G)
 
     @property
     def concrete(self):
@@ -282,7 +290,7 @@ class ProductRep(Rep):
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
     
     def __call__(self,G):
-        return self.__class__(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+        return rebind(self,self.__class__,G)
 
     @property
     def concrete(self):
-- 
2.43.0

