import json
def P(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(('name','meaning','where'),s)) for s in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
T='src/INNC/tensorImpl.cpp';F='src/INNC/function.cpp';O='include/INNC/ops.hpp';D='include/INNC/dispatcher.hpp';U='include/INNC/utils/utils.hpp';UC='src/INNC/utils/utils.cpp';L='src/INNC/layouts.cpp';TN='src/INNC/tensor.cpp';TH='include/INNC/tensor.hpp';TY='include/INNC/types.hpp';ST='src/INNC/storage.cpp'
props=[
P('C01','Buffers are accessed only as the dtype they were created with',
 "Whatever the dtypes of the operands, every operation reads and writes each tensor's buffer using exactly the element type that tensor reports, and a freshly created buffer holds that element type's size times the element count. No combination of supported dtypes selects a missing or mismatched implementation.",
 ['inputs','configurations'],'all public operations, all 6 (unary) / 36 (binary) operand dtype combinations, with and without gradient tracking',
 'The suite samples a few dtype pairs per operator; a wrong table row, a swapped dispatch or a wrong allocation dtype only shows for the untested pairs (randn in f64 was broken and untested).',
 [D,O,U,T,F,TN,TY],[('typed kernels chosen from [dtype][dtype] tables',D),('allocation with the result dtype',T),('enum value <-> C++ type registration',TY)]),
P('C02','Result dtypes follow the promotion rules',
 "Arithmetic and concatenation yield the larger operand dtype in the order i8 < i16 < i32 < i64 < f32 < f64, comparisons yield i8, and sum and mean yield i64 for integer and f64 for floating operands. Negation, abs, max, min, clone, contiguous, detach and every view keep the operand's dtype; conversions, constructors and like-constructors yield the requested one.",
 ['inputs','configurations'],'all public operations and all dtype combinations',
 'Tests check the dtype of a handful of results.',
 [TY,U,T],[('larger_type',TY),('result allocation in the binary/comparison helpers',U),('per-operation result creation',T)]),
P('C03','Operators apply the right function to the right operands',
 "Every element of a+b, a-b, a*b, a/b and of the six comparisons equals that operator applied to the left element and the right element, in that order, found at the broadcast position of the element's index. The computation never passes through a type narrower than the operands' common type, and a+=b stores a+b, converted to a's dtype, in a's own elements.",
 ['inputs','configurations'],'every operator, every dtype pair, every shape and every layout of the operands',
 'Each operator has one kernel per dtype pair and a path that exchanges operands; tests sample two or three pairs with small values.',
 [O,U,T,TN],[('elementwise kernels',O),('operand ordering in the binary helper',U),('operator definitions',T)]),
P('C04','Reductions, fills, conversions and copies compute their defining value',
 "sum adds every element exactly once, mean divides that sum by the element count, max and min return the extremum over the tensor's own elements, abs, negation, type, clone and contiguous map each element to the same index, and cat lays its inputs out consecutively along the chosen dimension. zeros, ones, full, eye and from_blob fill every element with the value they promise, and all() is true exactly when no element is zero.",
 ['inputs','configurations'],'every shape (0-d, empty, n-d), layout, dtype',
 'Values are sampled on small contiguous tensors; strided and 0-d operands, extremum-first inputs and most dtypes are not.',
 [O,T,U],[('kernels',O),('index odometer',U),('operation bodies',T)]),
P('C05','Broadcasting shape rule, and rejection of incompatible shapes',
 "Aligning the operands' dimensions from the last one, an elementwise result has the larger extent of each pair and the longer operand's leading extents. If some pair of extents is neither equal nor contains a 1 (a 0 against a 1 counts as incompatible), the operation throws and returns no result.",
 ['inputs'],'all pairs of shapes, including empty and 0-d ones',
 'Tests use two broadcasts and one mismatch; the check was in fact a tautology and only mismatches that reached an element were rejected.',
 [UC,T,U],[('broadcast_range',UC),('range check of the broadcast index',T)]),
P('C06','Views alias their base, every other result owns its buffer',
 "Slices, transposes, detached tensors and reshapes of evenly strided tensors refer to the operand's own buffer. Arithmetic, comparisons, reductions, abs, clone, contiguous, cat, conversion to another dtype, all constructors and from_blob return a buffer shared with no other tensor and no caller memory.",
 ['inputs','histories'],'every operation, operand layout and dtype',
 'Aliasing only shows through later in-place updates, which no test performs.',
 [T,L,ST,TN],[('storage passed to result creation',T),('contiguous_from',L)]),
P('C07','Operations leave their operands and global state untouched',
 "No operation changes the elements, shape, layout or dtype of an operand, or its requires-grad and retain-grad flags, except the ones whose purpose it is: in-place addition, release, zero_grad and the flag setters. Building a result never changes the gradient values of an operand, and no operation other than randn consumes the random generator.",
 ['inputs','histories'],'every operation, dtype, layout, gradient mode',
 'Buffers are reachable for writing through const handles, so the compiler does not protect them, and tests seldom look at operands afterwards.',
 [O,T,F,'src/INNC/utils/rand.cpp'],[('kernels write only their destination',O),('results are new objects',T)]),
P('C08','No element access leaves the tensor buffer',
 "Every freshly allocated result has a buffer exactly as large as its dense layout, every gradient buffer is as large as the buffer of the tensor it belongs to, and every element access uses the accessed tensor's own offset and strides at an index within that tensor's shape. This holds for every view: sliced, transposed, reshaped, empty or 0-d.",
 ['inputs','histories'],'every operation on every layout reachable through views',
 'AddressSanitizer sees only the executed sizes; abs and gradients of sliced tensors overflowed their buffers with the suite green.',
 [T,L,O,F,ST],[('create(): storage sized from the layout',T),('cnt_from_index / cnt_from_aug_index',L+', '+T),('grad buffer creation',F+', '+T)]),
P('C09','Slicing selects exactly what a Python slice selects',
 "For every dimension with extent n, 'i' selects index i (negative i counts from the end, out-of-range throws) and drops the dimension, and 'b:e:s' selects the elements of Python's range(n)[b:e:s] in that order, including clamping, negative steps, omitted parts and empty selections. The view has exactly that many elements, never refers outside the base, and dimensions not mentioned are kept whole.",
 ['inputs'],'all extents, all begin/end/step integers (present or omitted), all base strides and offsets',
 'About fifteen literal slices of one 4x3 tensor are tested; the clamp cascade has over twenty branch combinations per dimension.',
 [T,UC],[('operator[] clamp cascade and offset/stride computation',T),('ssplit',UC)]),
P('C10','Transpose and reshape keep every element, in the right order',
 "transpose(i, j) exchanges extents and strides of the two dimensions and changes nothing else. reshape keeps the row-major sequence of the elements for any operand layout, accepts exactly the target shapes with the same element count (one -1 is inferred), and copies only when the operand is not evenly strided.",
 ['inputs'],'all shapes, strides and offsets of the operand and all target shapes',
 'Tests reshape three layouts; offsets, negative strides, one-element and 0-d operands and illegal sizes are sparse or absent.',
 [T],[('transpose',T),('reshape and regularize_size',T)]),
P('C11','Gradient tracking follows the operands',
 "The result of a differentiable operation requires grad if and only if at least one of its tensor operands does, and then it is connected to exactly its operands, in operand order. Detached tensors, comparisons, constructors and like-constructors never require grad.",
 ['inputs','configurations'],'every operation, every combination of requires-grad flags of the operands, every dtype',
 'Tests track gradients through a few expressions, mostly with all operands tracked.',
 [T,U,F],[('requires_grad propagation and node creation',T),('apply_binary_operator',U)]),
P('C12','The gradient of each operation is its derivative',
 "During a backward pass each tracked operand of +, -, *, /, negation, sum, mean, abs, max, min, clone, contiguous, type and cat receives the incoming gradient times the derivative of the operation with respect to it, summed over broadcast positions, and the operands of views receive the incoming gradient at the viewed positions.",
 ['inputs','configurations'],'every differentiable operation, operand dtypes, shapes (broadcast or not), layouts',
 'mean() and broadcast division were wrong with a green suite; derivative tests use one shape and one position in the graph.',
 [F,O],[('step_back of each node',F),('gradient kernels',O)]),
P('C13','Only operands that require grad receive a gradient',
 "A backward pass writes gradient only into tensors that require grad: an operand that does not is left without a gradient and never makes the pass fail, whatever its dtype (integer constants included).",
 ['inputs','configurations'],'every differentiable operation, every combination of tracked and untracked operands of every dtype',
 'Constants on one side were only tested for some operators; division by a constant crashed.',
 [F],[('requires_grad guards in step_back/try_accumulate_*',F)]),
P('C14','Gradients start from zero, accumulate, and are shared by views',
 "The first contribution to a tensor's gradient is added to zero and later contributions are added to what is there, so a tensor used several times, or in several passes, gets the sum. The gradient of a view lives in the gradient buffer of its base at the viewed positions, and zero_grad sets exactly that gradient to zero.",
 ['inputs','histories'],'every operation, absent / unallocated / existing gradient buffers, view and base in either order',
 'Uninitialised buffers are often zero by luck and tests reach each allocation path once.',
 [F,T,ST],[('try_accumulate_update / try_accumulate_grad',F),('share_grad_storage',T),('UntypedStorage::zero_',ST)]),
P('C15','A backward pass runs each node once, after all its consumers',
 "In one backward pass over a graph every node reachable from the root through tracked operands propagates exactly once, and only when all of its consumers in that graph have delivered their gradient; intermediate gradients are dropped afterwards unless retained.",
 ['programs','inputs'],'all graph shapes: shared sub-expressions, an operand used twice by one node, nodes also used outside the graph',
 'Graph shapes are unbounded; tests use a few small ones.',
 [T,F],[('refresh_n_outway counting',T),('backward ready queue',T),('one arrival counted per operand edge',F)],
 [('consumer count','edges of the current graph into a node','include/INNC/function.hpp'),('arrival count','contributions delivered to a node','include/INNC/function.hpp')]),
P('C16','Only floating-point tensors ever require grad',
 "No sequence of public operations produces an integer tensor that requires grad: asking for it throws, converting a tracked tensor to an integer dtype throws, and tracked results always have a floating dtype.",
 ['inputs','histories'],'every operation and dtype combination, every flag history',
 'Tests try one illegal conversion; gradient kernels index tables with dtype minus 4, so one leak is an out-of-bounds call.',
 [TN,T,U],[('requires_grad setter check',TN),('type() check',T)]),
P('C17','An illegal backward call is rejected before anything changes',
 "backward() on a tensor that does not require grad, has no history, or does not have exactly one element throws, and no gradient, flag or bookkeeping of any tensor has changed when it does.",
 ['inputs'],'all tensors',
 'No test calls backward illegally.',
 [T],[('precondition checks of backward',T)]),
P('C18','Invalid arguments raise an exception instead of undefined behaviour',
 "Slice index out of range, zero slice step, more slice parts than dimensions, transposed dimensions out of range or equal, reshape to another element count or with negative extents or two -1, cat of nothing, of mismatching shapes or along a missing dimension, randn of an integer dtype, in-place addition on a tracked tensor and ragged or empty nested initializers all throw. The checks come before the first use of the argument they protect.",
 ['inputs'],'all argument values of the listed operations',
 'Each check is exercised by at most one literal, several by none.',
 [T,TN,TH,UC],[('run_expect guards',T),('initializer-list validation',TH)]),
P('C19','History nodes keep operands alive and never form ownership cycles',
 "A tracked result keeps each of its operands alive for as long as the result exists, refers back to itself only without ownership, and owns all auxiliary data of its node, so dropping the last handle of a result frees exactly the history only it needs and no pass ever touches a dead tensor.",
 ['histories','programs'],'every differentiable operation, every order of destroying handles',
 'Leak checking covers the executed graphs only and dangling references may go unnoticed.',
 ['include/INNC/function.hpp',F,T,U,'include/INNC/tensorImpl.hpp'],[('shared ownership of inputs, unique ownership of the node by its result, raw back pointer','include/INNC/function.hpp')]),
P('C20','A backward pass is independent of earlier passes',
 "A later backward pass gives each tensor the same gradient contributions it would get had the earlier passes never run, even when the graphs share nodes.",
 ['histories'],'all sequences of backward passes over graphs that share nodes',
 'One test runs two passes over a shared node and records a gradient that lacks a term.',
 [T,F],[('per-pass reset of counters and versions',T),('intermediate gradients dropped after use',T)]),
P('C21','Floating-point work is done at the precision of the result type',
 "An f64 result or an f64 gradient is computed in double arithmetic throughout: no value on its way from f64 (or integer) operands, or from f32 operands summed or averaged into f64, passes through a narrower floating-point or an integer intermediate, so it agrees with the exact value up to double rounding.",['inputs','configurations'],'all operators, reductions, conversions and gradients with f64 operands or results, all operand values','Tests use small integers and halves, which every type represents exactly, so a float in the middle is invisible.',
 [O,F,T],[('kernels',O),('gradient kernels',O),('MeanBack, SubBack constants',F)]),
P('C22','Every randn element is a draw of its own from the standard normal law',
 "Each element of every tensor made by randn or randn_like is its own draw from a normal distribution with mean 0 and standard deviation 1: no element is left undrawn, no two elements of one tensor or of several tensors are the same draw or are derived from one another, and a later call continues the generator's sequence instead of repeating it.",['inputs','histories'],'all shapes, both floating dtypes, all sequences of calls','The only test checks that an integer dtype throws.',
 [T],[('std::normal_distribution over the global engine',T)]),
P('C23','The printed form lists the elements in row-major order',
 "to_string() prints every element exactly once, in row-major order, separated by a comma and a space, with one pair of square brackets per dimension (an empty dimension prints as [], a 0-d tensor as the bare element, a Tensor that refers to nothing as []), each element in the decimal form std::to_string gives its value (signed integers for integer dtypes, six fraction digits for floating ones), for every layout: views, transposes, strided and reversed slices, reshapes, gradients.",['inputs'],'all dtypes, shapes, layouts and element values','Tests print a few small tensors.',
 [L,'src/INNC/types.cpp'],[('recursive printer',L),('innc_type_to_string','src/INNC/types.cpp')]),
P('C24','Inspection methods report the actual state of the tensor',
 "size(), stride(), numel(), type(), is_contiguous(), requires_grad(), retain_grad() and grad() of any tensor, view or result report its shape, its strides, the product of its extents, its dtype, whether it is laid out densely in row-major order, its flags and its current gradient.",
 ['inputs','programs'],'every tensor and view a program can build','Only size() and is_contiguous() are called in tests; stride() used to throw for every tensor unnoticed.',
 [TN,T,'include/INNC/layouts.hpp',L],[('accessors',TN)]),
P('C25','Assigning to a Tensor rebinds that handle and nothing else',
 "After an assignment (copy, move or from a nested initializer) or a move construction the left side denotes exactly what the right side denoted: the same tensor with the same elements, flags, history and gradient, or a new tensor with its own buffer for an initializer. Every other handle, view, tensor element, flag, history and gradient is what it was before, in particular the tensor the left side denoted until then, whatever the shapes and dtypes of both sides are; later in-place additions show through every handle of the same tensor, and gradients go to the tensors a graph was built from, not to what their names denote later.",
 ['inputs','histories'],'all assignments between handles of any dtype, shape, layout, flags and history, anywhere in a program',
 'Tests assign a handful of dense tensors and never look at other handles of the old or new tensor.',
 [TN,TH],[('assignment operators and constructors',TN),('TensorInit::createImpl',TH)]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
