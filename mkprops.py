#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is reviewable)."""
import json
H='include/libflatarray/'
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":[H+f for f in files],"mechanism":[{"name":n,"where":H+w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=state
    a["hook_needed"]="none"
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
props=[
P("C01","SoA storage slots are in bounds, typed-stride and pairwise disjoint",
  "For every grid (and fixed-size array) of a registered cell type, each combination of in-range cell coordinate, member and array-member element occupies its own storage slot: the slot lies completely inside the container's allocated bytes and no two different combinations share a byte. Neighbouring cells along x of one member are stored contiguously, so that vector code can load them. The reported byte size is exactly (sum of member sizes) * (number of slots).",
  ["inputs"],"for all grid dimensions, all cell coordinates, all members and array elements of the registered types instantiated by the check",
  "A test reads back a few cells of a few sizes; an aliasing of two slots shows only for the particular pair of coordinates, members and extents that collide.",
  ["macros.hpp","detail/macros.hpp","detail/offset.hpp","detail/set_byte_size_functor.hpp","aggregated_member_size.hpp","detail/soa_array_member_copy_helper.hpp"],
  [("soa_accessor::access_member / gen_index","macros.hpp"),("LIBFLATARRAY_DEFINE_FIELD_OFFSET","detail/macros.hpp"),("set_byte_size_functor","detail/set_byte_size_functor.hpp")],
  ["soa_accessor member access","soa_grid::byte_size","soa_grid::data"]),
P("C02","Grid set/get/broadcast: read-your-writes and nothing else changes",
  "After writing a cell (single, bulk of n consecutive cells, or broadcast of one cell to n consecutive cells), reading any cell of the grid (single or bulk) yields exactly the written value for every coordinate addressed by the write and the previous value for every other coordinate, for all members including every element of array members. Reading never changes the grid, and a bulk read writes exactly the requested output cells.",
  ["inputs","histories"],"for all grid dimensions, coordinates, counts within a row, cell contents and prior grid contents",
  "The tests write regular patterns to a few grids; a write that leaks into a cell of another row, member or size class is visible only for specific coordinate/size combinations.",
  ["soa_grid.hpp","detail/set_instance_functor.hpp","detail/get_instance_functor.hpp","macros.hpp","detail/macros.hpp","detail/soa_array_member_copy_helper.hpp","detail/staging_buffer.hpp"],
  [("soa_grid::set/get/broadcast","soa_grid.hpp"),("set_instance_functor","detail/set_instance_functor.hpp"),("get_instance_functor","detail/get_instance_functor.hpp")],
  ["soa_grid::get","soa_grid::set","soa_grid::broadcast"]),
P("C03","Grid load/save: packed member-major transfer is exact and round-trips",
  "Saving n consecutive cells produces a packed buffer of n*(sum of member sizes) bytes in which, member after member (array members element after element), the values of the n cells are stored consecutively; it modifies nothing else. Loading such a buffer sets exactly those n cells to the packed values and leaves every other cell unchanged, hence load after save restores the cells. The same holds when the cells are given as a sequence of streaks whose lengths add up to n.",
  ["inputs","histories"],"for all grid dimensions, start coordinates, counts within a row, buffer contents and grid contents (streak sequences: see level note)",
  "Wrong offsets or strides in the packed buffer cancel out in save/load round trips of symmetric tests and depend on count, offset and member combination.",
  ["soa_grid.hpp","detail/load_functor.hpp","detail/save_functor.hpp","macros.hpp","detail/macros.hpp","detail/soa_array_member_copy_helper.hpp","detail/simple_streak.hpp"],
  [("soa_grid::load/save","soa_grid.hpp"),("load_functor","detail/load_functor.hpp"),("save_functor","detail/save_functor.hpp"),("copy_array_in/copy_array_out","detail/soa_array_member_copy_helper.hpp")],
  ["soa_grid::load","soa_grid::save"]),
P("C04","Grid copy, assignment, swap and resize keep dimensions and contents right",
  "Copy construction and assignment yield a grid with the same dimensions, extents, byte size and cell contents as the source, backed by its own storage, so later changes to one never show in the other; swap exchanges dimensions, extents, byte size, storage and contents of two grids completely. Resizing gives a grid whose dimensions are the requested ones, whose extents and byte size are those of a freshly created grid of these dimensions; resizing to the current dimensions keeps the contents, every other resize gives value-initialised cells. Resizing to unsupported dimensions raises an exception and leaves a grid that can still be resized and destroyed. All of this also holds for empty (default constructed) grids.",
  ["inputs","histories"],"for all dimensions of both grids, all contents, all coordinates",
  "Tests copy one or two grids with fixed sizes; stale or exchanged dimension, extent or size fields show only for particular combinations of two sizes and for follow-up operations.",
  ["soa_grid.hpp","detail/copy_functor.hpp","detail/construct_functor.hpp","detail/dual_callback_helper.hpp","macros.hpp","detail/macros.hpp"],
  [("soa_grid copy/assign/swap/resize","soa_grid.hpp"),("copy_functor","detail/copy_functor.hpp"),("copy_members","macros.hpp")],
  ["soa_grid::soa_grid(const soa_grid&)","soa_grid::operator=","soa_grid::swap","soa_grid::resize"]),
P("C05","Member objects are constructed once, destroyed once, and memory is freed",
  "For cell types with non-trivial members (also as array members), each member object belonging to a cell of a grid, vector or fixed-size array is constructed exactly once before any other use, is only ever assigned, read or destroyed while alive, and is destroyed exactly once before its storage is released (raw byte-wise load/save of such members is outside this guarantee). Every allocated block is released exactly once, with the size it was allocated with, when its container is resized, assigned to or destroyed. This also holds when allocating the container's own storage fails with std::bad_alloc: nothing acquired before is lost or released twice, the container stays usable and destructible, and a vector whose growth failed keeps its size, capacity and elements. (Members whose own constructors or assignments throw are outside this guarantee.)",
  ["inputs","histories"],"for all dimensions and sizes, every public operation applied to any valid container",
  "Double destruction or assignment to an unconstructed object often has no visible effect in a test run; which cells are affected depends on dimensions versus the rounded-up extents.",
  ["soa_grid.hpp","soa_vector.hpp","soa_array.hpp","detail/construct_functor.hpp","detail/destroy_functor.hpp","detail/generic_destruct.hpp","detail/macros.hpp","macros.hpp"],
  [("construct_functor","detail/construct_functor.hpp"),("destroy_functor","detail/destroy_functor.hpp"),("construct_members/destroy_members","macros.hpp"),("soa_grid::destroy_and_deallocate","soa_grid.hpp")],
  ["constructor/destructor calls of member types","allocate/deallocate calls"]),
P("C06","Size selection calls the functor once with the smallest fitting registered size",
  "A callback on a container invokes the user's functor exactly once, with an accessor whose compile-time extents are, per dimension (or for the common maximum in uniform mode), the smallest registered size that is at least the container's dimension, positioned at index 0 of the container's data. Default cell types use the 1D, 2D-uniform or 3D-uniform default tables according to the dimensions. If a dimension exceeds all registered sizes, or a 1D/2D type is used with larger unused dimensions, an out-of-range exception is raised and the functor is not invoked; dual-grid callbacks on grids of different dimensions are rejected unless the type is registered for asymmetric callbacks, in which case both accessors are selected independently.",
  ["inputs"],"for all 64-bit dimension values, for all default size tables and representative custom tables",
  "The dimension space is 2^192; the tests probe a few values, and an off-by-one at one table boundary or a permuted table entry is missed unless exactly that value is probed.",
  ["api_traits.hpp","macros.hpp","detail/macros.hpp","soa_grid.hpp","detail/dual_callback_helper.hpp"],
  [("select_sizes","api_traits.hpp"),("LIBFLATARRAY_CUSTOM_SIZES*","macros.hpp"),("LIBFLATARRAY_CASE_DIM_*","detail/macros.hpp"),("soa_grid::callback","soa_grid.hpp")],
  ["soa_grid::callback","api_traits::select_sizes"]),
P("C07","Accessor navigation: all accessor kinds address the right neighbour cell",
  "Reading or writing a member through an accessor (mutable, const, light, const light) at relative coordinate (X,Y,Z), after any number of advances by ++ or += or assignments of the index, refers to exactly the member of the cell at base coordinate plus (X,Y,Z), the same storage the plain accessor uses for that cell; writes through one kind are seen by every other kind. Whole-cell reads and writes, packed load/save and cell conversion through any accessor kind transfer every member of that one cell (or run of cells) and touch no other cell.",
  ["inputs","histories"],"for all base coordinates and advance amounts, a representative set of compile-time offsets including negative ones, all accessor kinds and all members",
  "The accessor kinds are four separately written macro bodies with many member functions; tests use each in a few stencil kernels only.",
  ["macros.hpp","detail/macros.hpp","soa_accessor.hpp","coord.hpp","detail/soa_array_member_copy_helper.hpp"],
  [("LIBFLATARRAY_INDEX / operator[]","macros.hpp"),("access_member","macros.hpp"),("soa_array_member_copy_helper::reference","detail/soa_array_member_copy_helper.hpp")],
  ["soa_accessor","const_soa_accessor","soa_accessor_light","const_soa_accessor_light"]),
P("C08","Fixed-size SoA array behaves as a bounded sequence",
  "A fixed-capacity SoA array behaves like a sequence of at most its capacity: construction with n copies, appending, removing the last element, clearing, element access, bulk load to a position within or directly behind the sequence and copying/assigning from arrays of any capacity give exactly the sequence the same operations give on a plain bounded sequence. An operation that would exceed the capacity, and removing from an empty array, raises an out-of-range exception and leaves the sequence unchanged; size, byte size and the distance between begin and end always match the sequence length.",
  ["inputs","histories"],"for all element counts, contents, offsets and operation steps from any valid state (instantiated capacities)",
  "Boundary states (full, empty, equal capacities) combine with member layout; tests exercise single examples.",
  ["soa_array.hpp","macros.hpp","detail/macros.hpp","detail/soa_array_member_copy_helper.hpp"],
  [("soa_array","soa_array.hpp"),("copy_members","macros.hpp")],
  ["soa_array public interface"]),
P("C09","SoA vector behaves as a growable sequence",
  "A growable SoA vector behaves like a sequence: set/get, push_back, emplace_back, pop_back, clear, resize and reserve give exactly the sequence the same operations give on a standard vector, for every length, and never read or write outside its storage. Growing by push_back, resize or reserve preserves all existing elements; reserve never changes size or contents, and the capacity is at least the size after every operation and at least the requested amount after reserve. Elements added by resize have unspecified values. An operation needing more than the largest registered size raises an out-of-range exception and leaves the sequence unchanged (push_back may already do so when less than a fifth of headroom is left).",
  ["inputs","histories"],"for all sizes, contents, indices, requested sizes and operation steps from any valid state",
  "Reallocation happens only when crossing registered sizes; element loss or out-of-bounds access depends on the count relative to these sizes.",
  ["soa_vector.hpp","soa_grid.hpp","detail/load_functor.hpp"],
  [("soa_vector::reserve/push_back/resize","soa_vector.hpp")],
  ["soa_vector public interface"]),
P("C10","Aligned allocator: aligned, large enough, disjoint from bookkeeping, freed",
  "Every non-null pointer returned by the aligned allocator is a multiple of the requested alignment and starts a block of at least n elements that lies entirely inside memory obtained from the underlying allocator and does not overlap the allocator's bookkeeping. Passing it back with the same n releases exactly the underlying block with exactly its original size, whatever the user wrote into the n elements; releasing a null pointer does nothing. A request whose size in bytes is not representable raises an exception instead of returning a too small block.",
  ["inputs","configurations"],"for all n without size overflow and all addresses the underlying allocator may return, for instantiated element types and alignments",
  "malloc returns only 16-byte aligned addresses in practice, so a test sees just a few of the possible misalignments.",
  ["aligned_allocator.hpp"],
  [("aligned_allocator::allocate/deallocate","aligned_allocator.hpp")],
  ["aligned_allocator::allocate","aligned_allocator::deallocate"]),
P("V01","Short-vector arithmetic is lane-wise on every instruction set",
  "For every supported short-vector type (float, double, int; 1 to 32 lanes) on every x86 code path (scalar, SSE2, SSE4.1, AVX, AVX2, AVX512), addition, subtraction and multiplication, as binary operators with a vector or a scalar on either side and as compound assignment (also of a vector with itself), give in each lane exactly the result of the scalar operation on the same lanes of the operands (integers modulo 2^32), and leave the operands otherwise unchanged.",
  ["inputs","configurations"],"for all lane values (all bit patterns), all types, arities and instruction sets compiled by the check",
  "About 60 hand-written specialisations; a swapped register or lane shows only for particular arities and the wide paths are not even executed by the test suite.",
  ["short_vec.hpp","detail/short_vec_scalar_double_8.hpp","detail/short_vec_sse_float_8.hpp","detail/short_vec_avx_double_8.hpp","detail/short_vec_avx512_int_32.hpp"],
  [("short_vec<T,N,STRATEGY>::operator+ - * & | ^ ~ and compound forms","detail/short_vec_*.hpp")],
  ["short_vec operators"]),
P("V02","Short-vector comparisons, masks, blend and lane queries are exact",
  "For every supported floating-point short vector and x86 code path, each comparison (<, <=, ==, >, >=) yields a mask whose set lanes are exactly the lanes where the scalar comparison holds (with NaN, infinities and signed zeros as in IEEE 754); counting mask lanes, testing whether any lane of a mask or vector is set (non-zero; lanes holding -0.0 excepted), reading a single lane of a vector or mask, and blending (replace exactly the masked lanes by the other vector's lanes) agree with the lane-wise definition, for every mask. The one-lane integer vector compares like int, and the integer mask helpers agree with the bits of the mask.",
  ["inputs","configurations"],"for all lane values including NaN, infinities and signed zeros, all types, arities and instruction sets compiled by the check",
  "2^arity mask patterns per operation and type; tests sample a handful.",
  ["short_vec.hpp","detail/short_vec_helpers.hpp","detail/short_vec_sse_float_4.hpp","detail/short_vec_avx_int_8.hpp","detail/short_vec_avx512_double_8.hpp"],
  [("short_vec comparison operators, any, get, blend","detail/short_vec_*.hpp"),("count_mask","detail/short_vec_helpers.hpp")],
  ["short_vec operators","any()","blend()","get()","count_mask"]),
P("V03","Short-vector loads, stores and constructors move exactly the right elements",
  "For every supported short-vector type and x86 code path, loading (unaligned, aligned), constructing from memory, from a scalar, from an initializer list or from another vector puts element i into lane i (a scalar into all lanes, nothing gives zeros), storing (unaligned, aligned, non-temporal, the stream-out operator to memory) writes lane i to element i, printing lists the lanes in order. Exactly arity elements are read or written, nothing before or after; the plain forms need no alignment beyond the element's and the aligned forms no more than the alignment the library documents for the type. The streaming vectors move the same elements.",
  ["inputs","configurations"],"for all memory contents and lane values, all types, arities and instruction sets compiled by the check",
  "Out-of-range accesses by one register go unnoticed in tests with large buffers; each specialisation has its own code.",
  ["short_vec.hpp","streaming_short_vec.hpp","alignment.hpp","detail/short_vec_sse_int_16.hpp","detail/short_vec_avx_float_32.hpp","detail/short_vec_avx512_float_16.hpp"],
  [("short_vec::load/load_aligned/store/store_aligned/store_nt, constructors","detail/short_vec_*.hpp")],
  ["short_vec load/store/constructors"]),
P("V04","Short-vector gather and scatter address element offset[i] for lane i",
  "For every supported short-vector type and x86 code path, gather sets lane i to the element at the base pointer plus the i-th offset and reads no other element, and scatter writes lane i to the element at base plus the i-th offset and nothing else, for arbitrary (also negative, repeated or large) 32-bit offsets stored anywhere; when scatter offsets repeat, the highest lane wins. The offsets and the scattered vector stay unchanged.",
  ["inputs","configurations"],"for all 32-bit offset vectors, memory contents and lane values, all types, arities and instruction sets compiled by the check",
  "Offsets span 2^(32*arity) combinations; tests use ascending small offsets only.",
  ["short_vec.hpp","detail/short_vec_helpers.hpp","detail/short_vec_avx_double_4.hpp","detail/short_vec_avx512_int_16.hpp"],
  [("short_vec::gather/scatter","detail/short_vec_*.hpp"),("SHORTVEC_INSERT_PS / gather helpers","detail/short_vec_helpers.hpp")],
  ["short_vec::gather","short_vec::scatter"]),
P("V05","Short-vector division, square root and reciprocal root stay within accuracy",
  "For every supported floating-point short vector and x86 code path, square root is lane-wise the correctly rounded result (NaN for negative lanes); division (also with a scalar operand and as compound assignment), division by a square root and division of a square root are lane-wise within a relative error of 2^-11 for float and 2^-51 for double of the exact result, for operands of magnitude 2^-60 to 2^60. Integer division, plain or compound, truncates exactly like scalar division for operands of magnitude below 2^24 and a non-zero divisor; integer square roots, and quotients by the root of a perfect square, are within 1 plus a relative error of 2^-11 of the exact value.",
  ["inputs","configurations"],"for all operand values in the stated ranges (square root: all values), all types, arities and instruction sets compiled by the check",
  "Accuracy bounds hold over 2^32 or 2^64 operand values; tests check a few dozen.",
  ["short_vec.hpp","detail/sqrt_reference.hpp","detail/short_vec_sse_float_4.hpp","detail/short_vec_avx_int_8.hpp","detail/short_vec_avx512_float_16.hpp"],
  [("operator/, operator/=, sqrt, rsqrt","detail/short_vec_*.hpp")],
  ["operator/","operator/=","sqrt","rsqrt","weighted sqrt/rsqrt operators"]),
P("L01","Loop peeling covers every iteration exactly once with aligned vector parts",
  "Peeling a loop from x to end calls the loop body so that every index in [x, end) is covered exactly once, in ascending order, and no other index is covered; calls with the vector type always start at a multiple of the vector's arity and cover whole vectors, all other indices, fewer than one vector's worth at each end, are handled by the scalar type. This holds for the macro and the lambda form, for signed and unsigned counters, also when the range is empty or lies within one vector.",
  ["inputs"],"for all x <= end (negative signed indices included, no overflow) and the instantiated vector arities and counter types",
  "The outcome depends on x and end modulo the arity and on their distance; tests check a few ranges.",
  ["loop_peeler.hpp","detail/sibling_short_vec_switch.hpp"],
  [("LIBFLATARRAY_LOOP_PEELER_IMPLEMENTATION","loop_peeler.hpp"),("loop_peeler","loop_peeler.hpp")],
  ["calls of the user's loop body"]),
P("M01","Member offsets by member pointer match the layout",
  "Looking up a registered member by pointer-to-member gives the offset at which that member's data starts, in units of the container's slot count, i.e. the address computed from it equals the address the accessor uses for that member; all members of a type have distinct offsets in registration order. Looking up an unregistered member raises an invalid-argument exception.",
  ["inputs"],"for all members of the instantiated registered types, all grid indices",
  "A mix-up among same-typed members or array members shows only when precisely these are looked up.",
  ["member_ptr_to_offset.hpp","detail/offset.hpp","detail/macros.hpp"],
  [("member_ptr_to_offset","member_ptr_to_offset.hpp"),("offset<CELL,I>::operator()","detail/macros.hpp")],
  ["member_ptr_to_offset","soa_accessor::access_member(size,offset)"]),
P("T01","Vector type selection yields types of the requested shape",
  "Vector types derived by the library have the right shape: the arity chosen for a requested instruction-level parallelism is that many native vector registers of the element type (at least one lane), the estimated optimum type for a kernel is a vector of the kernel's element type with that arity, and a streaming one exactly if the kernel's data set does not fit the cache size estimate; streaming vectors have the same arity and lane values as the plain vector, and the sibling of another arity (e.g. the scalar one used for loop remainders) is of the same kind and element type with just that arity.",
  ["configurations"],"for all supported element types, arities and instruction sets compiled by the check",
  "Selection depends on compile-time feature macros; a test run sees one instruction set.",
  ["ilp_to_arity.hpp","estimate_optimum_short_vec_type.hpp","streaming_short_vec.hpp","detail/sibling_short_vec_switch.hpp","detail/streaming_short_vec_switch.hpp","alignment.hpp"],
  [("ilp_to_arity","ilp_to_arity.hpp"),("estimate_optimum_short_vec_type","estimate_optimum_short_vec_type.hpp"),("streaming_short_vec","streaming_short_vec.hpp")],
  ["ilp_to_arity","streaming_short_vec","sibling_short_vec_switch"]),
P("K01","Operations without common data do not interfere in any schedule",
  "Reading operations of grids, vectors and arrays (get, save, element access, size queries, accessor callbacks, being copied from) write nothing but the caller's result, so any number of threads may run them on one container at the same time and each gets what it would get alone. Writing cells (set, broadcast, load, element assignment, through accessors) writes only the storage of the addressed cells and reads no other cell's storage, so threads may concurrently write different cells of one container. All operations, including allocation, loop peeling and vector arithmetic, write only the objects they are given and no hidden shared state, so operations on different containers never interfere.",
  ["schedules","inputs"],"for every interleaving of operations which share no data that one of them is documented to write; for all dimensions, coordinates, counts and contents",
  "The tests are single-threaded; a race on hidden state (a cached pointer, a static scratch buffer, a neighbour written back) gives right results in any sequential run and in nearly all parallel ones.",
  ["soa_grid.hpp","soa_vector.hpp","soa_array.hpp","detail/staging_buffer.hpp","detail/set_instance_functor.hpp","detail/get_instance_functor.hpp","detail/save_functor.hpp","detail/load_functor.hpp","macros.hpp","aligned_allocator.hpp","loop_peeler.hpp","short_vec.hpp"],
  [("soa_grid::get/set/save/load/broadcast","soa_grid.hpp"),("staging_buffer","detail/staging_buffer.hpp"),("soa_vector::get/set","soa_vector.hpp"),("soa_array::operator[]","soa_array.hpp"),("short_vec gather/scatter/load/store","short_vec.hpp")],
  ["memory written and read by each operation"]),
P("G01","CUDA device containers and kernels mirror the host containers",
  "Grids, vectors and arrays placed on a CUDA device, and the device array type, hold the same values as their host counterparts after the same operations.",
  ["inputs","configurations"],"for all inputs on a CUDA device",
  "Needs GPU hardware; tests cover few sizes.",
  ["cuda_array.hpp","cuda_allocator.hpp","detail/generate_cuda_launch_config.hpp","detail/init_kernel.hpp","detail/staging_buffer.hpp"],
  [("cuda_array","cuda_array.hpp"),("staging_buffer<CELL,true>","detail/staging_buffer.hpp")],
  ["cuda_array","soa_grid<T, cuda_allocator<char>, true>"]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
