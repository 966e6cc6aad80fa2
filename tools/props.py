#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the statements are reviewable as prose).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
KER=["src/avx2","src/sse","src/avx512bw"]
p("C01","No instruction runs on a CPU that lacks it",
  "Code compiled for an optional CPU instruction set is only ever executed after the library has established at run time that the CPU offers every instruction-set extension that code was compiled for. Consequently any public conversion is safe to call on any CPU of the target architecture, under every combination of Cargo features.",
  ["configurations","inputs"],"every CPU feature combination x every Cargo feature set x every public conversion",
  "Tests run on one CPU that has all the extensions, so an unguarded or wrongly guarded call can never fail there.",
  ["src"]+KER,
  [("run-time feature detection in the row dispatchers and factories","src/*.rs new()/make_*"),("target_feature functions","src/avx2, src/sse, src/avx512bw")])
p("C02","Undersized buffers and bad strides are rejected before anything is written",
  "A conversion given an image with a zero dimension, mismatched dimensions, a plane shorter than its stride and size need, or a stride shorter than a row returns an error. When it returns an error no output buffer has been modified, and it does not panic. (Mirroring or rotating an image without rows or columns may instead succeed without doing anything.)",
  ["inputs"],"every public conversion x every invalid plane, stride or dimension",
  "The tests only pass well-formed images; each of ~450 entry points has up to four planes and each can be wrong on its own.",
  ["src/images.rs","src/yuv_error.rs","src/*.rs"],
  [("per-image constraint checks","src/images.rs check_constraints"),("per-plane checks","src/yuv_error.rs")])
p("C03","Well-formed images are always accepted and converted without a panic",
  "For every image whose dimensions are non-zero and match, whose strides are at least a row and whose planes hold stride x rows elements, every conversion succeeds: no error, no panic, no arithmetic overflow, for every width and height (odd ones included) and every amount of row padding.",
  ["inputs"],"every public conversion x every width, height, stride",
  "Tests use a few sizes and always the tight stride; panics in remainder paths depend on width residue, parity and stride slack.",
  ["src"],[("entry points and row loops","src/*.rs *_impl"),("chunk iterators and remainders","src/*.rs")])
p("C04","Vector kernels never touch memory outside the rows they are given",
  "While converting any well-formed image, no read or write goes outside the source planes, the destination planes or the function's own temporaries, for every width, height and stride and on every instruction-set path, including the partial block at the end of a row.",
  ["inputs","configurations"],"every conversion x every width/height/stride x every CPU path",
  "Out-of-bounds raw-pointer accesses of a few bytes usually land in valid heap memory and do not fail a test; the tests reach one CPU path only.",
  KER+["src"],[("raw pointer loads and stores, copy_nonoverlapping tails","src/avx2, src/sse, src/avx512bw"),("get_unchecked accesses in scalar loops","src/*.rs")])
p("C05","Every output sample inside the image is written",
  "After a successful conversion every sample of every destination plane inside the image (chroma planes: the rounded-up subsampled size) has been written by the conversion, for every width and height, odd ones included, on every CPU path. Nothing of the destination's previous content remains inside the image and no uninitialised temporary reaches it.",
  ["inputs","configurations"],"every conversion x every width, height, stride x every CPU path",
  "Depends on width modulo the vector block (up to 64 residues), height parity and CPU path; tests sample one random even-ish size on one CPU.",
  ["src"]+KER,[("row iteration and odd-row/odd-column remainders","src/*.rs"),("vector tails","src/avx2, src/sse, src/avx512bw")])
p("C06","Row padding and everything outside the image is left untouched",
  "A conversion writes only samples inside the image: bytes between the end of a row and the stride, and bytes after the last row, keep their previous content in every destination plane.",
  ["inputs","configurations"],"every conversion x every stride larger than the row x every width residue x every CPU path",
  "All tests use the tight stride, where a write past the row end is hidden by the next row.",
  ["src"]+KER,[("row slicing to image width","src/*.rs"),("vector tails","src/avx2, src/sse, src/avx512bw")])
p("C07","Decoding takes each pixel from its own luma sample and co-sited chroma, in the named channel order",
  "When decoding YUV (planar, bi-planar, packed 4:2:2, AYUV, GBR, YCgCo, grey) to RGB-like output, output pixel (x,y) depends only on luma sample (x,y), the chroma pair at (x/2,y/2) for 4:2:0, (x/2,y) for 4:2:2, (x,y) for 4:4:4 and, where present, alpha (x,y); U and V, and R, G, B and A, are each in the position the function's name says. Bilinear variants, where provided, are excepted from the siting rule.",
  ["inputs","configurations"],"every decoder x every pixel position x every CPU path",
  "A swapped U/V or a sample taken one block off in one vector kernel's tail only shows at particular widths on a particular CPU, and round-trip tests with smooth images hide it.",
  ["src"]+KER,[("channel order const generics","src/yuv_support.rs"),("kernels","src/avx2, src/sse, src/avx512bw")])
p("C08","Decoded colour is the matrix formula, rounded and saturated, on every path",
  "For luma and chroma inside their nominal range, every decoded R, G and B sample is within a small fixed tolerance of the exact conversion formula of the requested matrix, range and bit depth. For any samples, inside that range or not, the result is saturated to the output range, never wrapped around. This holds identically in the scalar code and on every vector path.",
  ["inputs","configurations"],"every decoder x every matrix x every range x all sample values x every CPU path",
  "The tests compare a few colours after a round trip with loose tolerance on one CPU path.",
  ["src","src/yuv_support.rs","src/built_coefficients.rs"]+KER,[("fixed point kernels","src/avx2, src/sse, src/avx512bw"),("transform selection","src/yuv_support.rs")])
p("C09","Encoding takes luma from its own pixel and chroma from exactly its block",
  "When encoding RGB-like input to YUV, luma (x,y) depends only on pixel (x,y), and each chroma sample only on the pixels of its own 2x2 (4:2:0), 2x1 (4:2:2) or 1x1 (4:4:4) block clipped to the image, with U and V in the positions the format's name says. Alpha, when the input has it, never influences luma or chroma.",
  ["inputs","configurations"],"every encoder x every sample position x every CPU path",
  "Same as C07: particular residues and CPU paths, and only one CPU path is run.",
  ["src"]+KER,[("channel order const generics","src/yuv_support.rs"),("kernels","src/avx2, src/sse, src/avx512bw")])
p("C10","Encoded luma and chroma are the matrix formula of the pixel or block mean",
  "For every RGB input, encoded luma is within a small fixed tolerance of the exact formula of the requested matrix, range and bit depth, and each chroma sample within a small fixed tolerance of the formula applied to the mean of the pixels in its block; nothing wraps around. This holds identically in the scalar code and on every vector path.",
  ["inputs","configurations"],"every encoder x every matrix x range x all sample values x every CPU path",
  "The tests see the sum of encoder and decoder errors for a few colours on one CPU path.",
  ["src","src/yuv_support.rs","src/built_coefficients.rs"]+KER,[("fixed point kernels","src/avx2, src/sse, src/avx512bw"),("forward transform","src/yuv_support.rs")])
p("C11","Packed 4:2:2 and planar YUV carry the same samples",
  "Converting between packed 4:2:2 (YUYV, UYVY, YVYU, VYUY) and planar 4:2:2 moves every luma and chroma sample unchanged to its place in the named byte order; between packed 4:2:2 and planar 4:2:0 or 4:4:4, luma is unchanged and chroma is replicated or averaged only over the samples that share its site. This holds for every width and height including odd ones.",
  ["inputs","configurations"],"every packed/planar conversion x every width, height, stride x every CPU path",
  "Odd widths, odd heights and strides with slack are not tested at all for these functions.",
  ["src/yuv_to_yuy2.rs","src/yuy2_to_yuv.rs","src/yuv_to_yuy2_p16.rs","src/yuy2_to_yuv_p16.rs"]+KER,
  [("pixel pair de/interleave","src/yuy2_to_yuv.rs, src/yuv_to_yuy2.rs")])
p("C12","Lossless rearrangements are bit-exact",
  "Channel shuffles (RGB/BGR/RGBA/BGRA in 8, 10, 12, 16-bit and half float), full-range GBR to RGB and back, transposition, rotation and mirroring move sample values without changing any bit and put each one at the position the operation's name says.",
  ["inputs","configurations"],"every shuffle, GBR and geometry function x every width, height, stride x every CPU path",
  "Bit-exactness at every position for every width residue on each CPU path is not sampled by the tests; shuffles are barely tested.",
  ["src/shuffle.rs","src/from_identity.rs","src/to_identity.rs","src/geometry.rs","src/mirroring.rs"]+KER,
  [("converter factories","src/shuffle.rs"),("identity row kernels","src/from_identity.rs, src/to_identity.rs")])
p("C13","Alpha is opaque when the source has none and passed through when it has one",
  "A conversion whose source carries no alpha writes the maximum value of the destination depth into every destination alpha sample; one whose source carries alpha copies that pixel's alpha, changed only by the bit-depth conversion. The other channels are not scaled by alpha unless premultiplication was asked for; then each is the decoded, saturated colour times its own pixel's alpha over the maximum, rounded, so opaque pixels are unchanged.",
  ["inputs","configurations"],"every conversion with an alpha channel x every pixel x every CPU path",
  "Alpha of most targets is never inspected by the tests and kernels set it separately in body and tail.",
  ["src"]+KER,[("alpha lanes in the row kernels","src/*.rs, src/avx2, src/sse, src/avx512bw")])
p("C14","High bit depth samples keep their depth, packing and byte order",
  "Samples of N-bit formats (10, 12, 14, 16) are stored within N bits, in the low bits or the high bits (P010-like) as the format prescribes and in the requested byte order, and are interpreted that way when read; 2:10:10:10 pixels have each channel in the bit position the name says.",
  ["inputs","configurations"],"every high-bit-depth conversion x every sample value x byte order x packing x CPU path",
  "Only little-endian and a few of the packings are round-tripped; a symmetric mistake cancels out in a round trip.",
  ["src/numerics.rs","src/yuv_support.rs","src"]+KER,[("to_ne / MSB shifts","src/numerics.rs"),("Rgb30 packing","src/yuv_support.rs")])
p("C15","Conversion constants are those of the named standard",
  "For every standard matrix, range, bit depth and fixed-point precision the library offers, the coefficients and biases used are the ones derived from the standard's Kr/Kb and quantisation ranges, to within rounding of the fixed-point format; precomputed tables agree with the derivation.",
  ["configurations"],"every matrix x range x bit depth x precision x subsampling",
  "The only table test checks one direction for convergence; a wrong entry for one matrix/depth changes colours slightly and passes round trips.",
  ["src/yuv_support.rs","src/built_coefficients.rs","src/internals.rs"],
  [("matrix derivation","src/yuv_support.rs"),("prebuilt tables","src/built_coefficients.rs")])
p("C16","Each public function does the conversion its name says",
  "Every public conversion function performs the conversion its name states: source and destination format, channel order, subsampling, bit depth and packing, and not that of a sibling.",
  ["programs","inputs"],"each of the ~450 exported conversion functions",
  "Most of the exported functions are thin instantiations that no test calls.",
  ["src/lib.rs","src/*.rs"],[("entry point macros and const generic arguments","src/*.rs")])
p("C17","Conversions are pure functions of their arguments",
  "A conversion keeps no state between calls, reads no clock, environment, randomness or global mutable data, and never writes through its shared-reference inputs; so equal arguments give equal results, from any number of threads at once.",
  ["schedules","histories","inputs"],"every public function x every call history x every concurrent use",
  "Tests run each conversion once or twice in isolation and cannot exhibit history or schedule dependence.",
  ["src"],[("no statics, no interior mutability, no external effects","src")])
p("C18","Turning on parallel execution does not change results",
  "With the parallel-execution Cargo feature on, each conversion writes exactly the same output as without it: the same rows, the same pairing of source and destination rows, the same handling of the remainders, and no two tasks write the same sample.",
  ["schedules","inputs","configurations"],"every conversion x every schedule of the thread pool x every size",
  "The parallel feature is compiled in one test configuration and a handful of sizes; row pairing for odd heights and padded strides is not compared with the serial build.",
  ["src"],[("rayon variants of row iteration","src/*.rs cfg(feature = rayon)")])
p("C19","Library-allocated images satisfy the library's own validity checks",
  "An image allocated by the library for any dimensions and subsampling, and the read-only view taken of it, has planes and strides that every conversion for that format accepts, and its planes hold at least the rounded-up subsampled size.",
  ["inputs"],"every width x height x subsampling x image kind",
  "Tests allocate a few sizes; the agreement of allocation and validation arithmetic must hold for all.",
  ["src/images.rs"],[("alloc / to_fixed / check_constraints","src/images.rs")])
p("C20","Performance of the vector paths",
  "Vector paths are faster than the scalar ones for images of practical size.",
  ["inputs","configurations"],"all CPUs and sizes",
  "Timing is environment dependent.",
  ["src"],[("kernels","src/avx2")])
p("C21","Sharp chroma downsampling improves edges",
  "The gamma-aware chroma downsampling of the sharp encoders yields a closer reconstruction of coloured edges than plain averaging.",
  ["inputs"],"all images",
  "A perceptual/numerical optimisation goal over whole images.",
  ["src/sharpyuv"],[("iterative refinement","src/sharpyuv")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
