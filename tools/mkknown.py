import subprocess
M={"plain number arguments":("C27","torchified functions called with a plain number argument raised in the backward pass"),
"cached trajectories":("C28","a dataset whose trajectories were cached on disk could not be loaded again (torch.load defaults)"),
"exactly one time":("C28","T of a trajectory chunk had one time too many when chunk_len*dt is rounded up (e.g. chunk_len=3, dt=0.1)"),
"whole chunks":("C28","generating trajectories raised unless the number of time points is a multiple of chunk_len"),
"can be bound":("C06","a tensor product bound to a group could not be bound again (NotImplementedError, e.g. EMLP(T(2)(G),...)); a sum lost components whose types coincide over the new group"),
"whose factors are not in canonical":("C20","a hidden layer that is a single tensor product with factors not in canonical order raised (unhashable)"),
"adjoint of complex":("C10","adjoint of lazy operators on complex arrays omitted the conjugation, so Q@Q.H was no projector for U(n), SU(n)"),
"shape, adjoint and inverse":("C11","LazyDirectSum of rectangular blocks had a wrong shape and adjoint; invT of LazyKron missing"),
"adjoint of Rot90":("C11","Rot90.T was not the transpose"),
"SwapMatrix":("C11","SwapMatrix raised (index_update removed from jax)"),
"transposed ConcatLazy":("C11","transposed ConcatLazy / LazyJVP raised on vectors"),
"LazyKron with a zero":("C11","LazyKron with a zero dimensional factor raised (mixed products without solutions)"),
"inverse transpose of scaled":("C10","invT of scaled and summed operators raised or was wrong"),
"SO(1), SL(1)":("C12","constructing SO(1), SL(1), SU(1), S(1) raised"),
"embeddings of a group along":("C08","embeddings of one group along different dimensions compared equal and shared solutions"),
"Embed supports complex":("C12","Embed of complex groups dropped imaginary parts, of groups with lazy generators raised"),
"separate the arguments":("C08","names of groups concatenated their arguments (Z(11) style collisions), so different groups compared equal"),
"embeddings/products":("C12","d of groups without generators"),
"embeddings and products of groups without":("C12","Embed/direct product of groups without generators raised"),
"default Lie algebra":("C05","default drho raised or lost imaginary parts for complex and lazily represented generators"),
"equality and hashing of direct sums":("C08","SumReps with the same summands but different layouts compared equal and shared cached results"),
"instantiating Scalar":("C09","Scalar(G) modified the shared Scalar"),
"pytorch models accept":("C26","Standardize around a pytorch EMLP/MLP raised TypeError on the training argument"),
"GroupAugmentation":("C26","default_aug of datasets raised for unbound representations"),
"gates of a hidden":("C20","gate indices of a hidden layer with a single representation were wrong or raised"),
"bilinear layers between":("C19","BiLinear raised for representations that are not direct sums"),
"gradients of torchified":("C27","torchify_fn raised or lost gradients with pytrees or several outputs"),
"solve for the basis in double":("C02","single precision SVD did not converge (NaN basis)"),
"keeps the imaginary":("C11","LazyDirectSum dropped the imaginary part of complex numpy blocks"),
"cube rotations behind":("C12","RubiksCube generators rotated a face without its stickers (order 24!^2/2 instead of 43252003274489856000)"),
"D(1) is not":("C14","D(1) reported itself a permutation group"),
"samples of groups with complex":("C13","samples of groups with complex discrete generators dropped imaginary parts"),
"bound sum or product again":("C06","a bound sum or product in non canonical order, bound again to a group of another dimension, got a wrong permutation or raised IndexError"),
"complex constraints":("C17","the iterative solver lost the complex solutions of complex constraints (e.g. user groups with complex generators)"),
"met the tolerance":("C17","the iterative solver returned vectors one momentum step past the ones that met the tolerance: wrong solutions when all nonzero singular values coincide"),
"exactly as many as start":("C17","the iterative solver returned 19 of 20 solutions for one in a few hundred random starts when the number of solutions equals the rank limit"),
"every vector of a small":("C17","the iterative solver raised IndexError when all solutions fit in the first guess"),
"canonical order":("C15","Rep.__lt__ was no total order, so canonical forms of mixed sums depended on the order written")}
out=[]
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()):
    h,s=l.split(" ",1)
    if not s.startswith("fix:") or "line endings" in s: continue # (white space only)
    k=[k for k in M if k in s]
    assert len(k)>=1,s
    pid,w=M[k[0]]
    out.append(f"fixed: property={pid} {h} {w}")
known=[l.strip() for l in open("/verif/known_findings.txt") if l.startswith("known:")]
open("/verif/known_findings.txt","w").write("\n".join(out+known)+"\n")
print(len(out))
