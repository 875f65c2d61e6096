#!/usr/bin/env python3
# writes properties.jsonl (kept as a script because the lines are long)
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
FM="src/formats"
p("C01","Matrix colour spaces convert by the published formulas",
 "For every pair of pixel formats and every combination of BT.601, BT.709, BT.2020, full and limited range and RGB, each destination sample is the code nearest to the exact value the published luma/chroma formulas give for the source samples. Subsampled chroma is the average of the pixels it covers and is shared by all of them, and this holds equally for interleaved, planar, 8, 10 and 12 bit formats and for any image width and stride.",
 ["inputs","configurations"],"all source samples, format pairs with at least one YUV side, matrix spaces, ranges, even sizes, memory layouts; transfer and primaries equal on both sides",
 "The suite converts a few fixed images between a handful of pairs and compares with tolerance or prints; a wrong coefficient, stride or lane order in one of the 209 pairs, in one range or only in the scalar tail is not reached.",
 ["src/color/space.rs","src/formats/visit_2x2.rs","src/formats/i420","src/formats/i422","src/formats/i444","src/formats/nv12","src/formats/yuyv","src/formats/rgb","src/formats/rgba"],
 [("YUV/RGB matrices","src/color/space.rs"),("2x2 block visitor, vector body and scalar remainder","src/formats/visit_2x2.rs"),("format readers and writers","src/formats/*/read.rs, write.rs"),("range scaling","src/formats/*/read.rs, write.rs")],
 ["convert"])
p("C02","ICtCp conversion follows BT.2100",
 "Converting from or to ICtCp (PQ or HLG) in any pixel format, range and with any declared transfer and primaries gives the value that results from decoding to linear light, applying the published LMS and ICtCp matrices with the PQ or HLG curve, and encoding again, up to floating point accuracy. Subsampled chroma is the average over the pixels it covers.",
 ["inputs","configurations"],"all source samples, formats, ranges, transfers and primaries with at least one ICtCp side",
 "The suite has no ICtCp test with a reference value: it cannot see a wrong matrix entry, a skipped curve, or an average over the wrong pixels.",
 ["src/color/space.rs","src/color/primaries.rs","src/color/transfer.rs"],
 [("ICtCp steps","src/color/space.rs"),("LMS matrices","src/color/space.rs"),("LMS curve","src/color/transfer.rs")],["convert"])
p("C03","Transfer functions and primaries are converted as declared",
 "When source and destination declare different transfer functions or primaries, the pixels are decoded to linear light with the source's curve, moved between the primaries by way of XYZ with white staying white, and encoded with the destination's curve. Inputs outside the nominal range give defined, in-range results, never NaN or arbitrary codes.",
 ["inputs","configurations"],"all source samples, format pairs, 7 transfers x 3 primaries on either side",
 "Only single colours of a few combinations are exercised; 441 transfer/primaries pairs times lanes and out-of-gamut values are not.",
 ["src/formats/transfer_and_primaries_convert.rs","src/color/transfer.rs","src/color/primaries.rs"],
 [("decode, XYZ, encode","src/formats/transfer_and_primaries_convert.rs"),("curves","src/color/transfer.rs"),("primaries matrices","src/color/primaries.rs")],["convert"])
p("C04","Scalar transfer functions and primaries matrices match their standards",
 "The public scalar transfer functions return the value of the named standard's curve for every input, are monotone, map black to black and peak to peak, and undo each other. The public primaries matrices are the ones the published chromaticities and D65 white define, and the two directions are each other's inverse.",
 ["inputs"],"all finite inputs including slightly negative and above-peak values, all curves and primaries",
 "The tests evaluate a few points per curve; errors near branch joints, at the dark end or in one direction stay unseen.",
 ["src/color/transfer.rs","src/color/primaries.rs"],
 [("curve definitions","src/color/transfer.rs"),("matrix tables","src/color/primaries.rs")],["ColorTransfer::linear_to_scaled","ColorTransfer::scaled_to_linear","ColorPrimaries::rgb_to_xyz_mat","ColorPrimaries::xyz_to_rgb_mat"])
p("C05","Copying is bit exact for every format and layout",
 "Copying an image, or converting it to the same format with the same colour description, reproduces every sample bit for bit, including bits above the nominal bit depth of 10 and 12 bit containers. This does not depend on the strides, padding, alignment or cropping of either side nor on the entry point used.",
 ["inputs","configurations"],"all sample values, formats, sizes and pairs of memory layouts; single- and multi-threaded",
 "Tests copy tightly packed images of one size.",
 ["src/copy.rs","src/lib.rs"],[("row-wise copy","src/copy.rs"),("same format and colour shortcut","src/lib.rs")],["convert","convert_multi_thread","copy"])
p("C06","Lossless chains of conversions return the original image",
 "Converting an image through any chain of formats that can represent all of its samples (repacking, equal or finer chroma sampling, equal or higher bit depth, unchanged colour) and back to its own format returns exactly the original samples. Converting RGB orders into each other permutes channels and changes nothing else.",
 ["inputs","histories"],"all images, chains of two to four conversions, sizes and layouts",
 "Round trips in the suite are few, with one image and a tolerance.",
 ["src/formats","src/lib.rs"],[("readers and writers are inverse","src/formats/*/read.rs, write.rs"),("rounding on write","src/formats/*/write.rs, src/vector")],["convert"])
p("C07","Results depend only on the pixels converted, not on memory layout",
 "A destination sample depends only on the source pixels it covers and the two colour descriptions: not on strides, padding, plane order in memory, alignment, image size, neighbouring pixels outside its chroma block or whether it is handled by vector or remainder code. Repeating a conversion gives the same bytes.",
 ["inputs","configurations"],"all conversions; pairs of layouts; any aligned tile of an image converted alone",
 "Tests use packed images; they cannot vary strides, alignment and position of a pixel independently.",
 ["src/formats/visit_2x2.rs","src/planes.rs","src/formats"],[("pointer arithmetic with strides","src/formats/*"),("vector/remainder split","src/formats/visit_2x2.rs")],["convert"])
p("C08","Multi-threaded conversion equals single-threaded conversion",
 "For every image pair, valid or not, and every number of threads, multi-threaded conversion gives the same bytes as single-threaded conversion, or refuses the call just as it does. It never panics, and rows at the borders between the threads' parts are complete.",
 ["inputs","schedules","configurations"],"all conversions, heights, layouts, invalid arguments and 1 to 8 visible CPUs",
 "The suite compares one large image on the machine's own thread count.",
 ["src/multi_thread.rs","src/planes.rs"],[("split into bands of even height","src/multi_thread.rs"),("plane splitting","src/multi_thread.rs split_planes")],["convert_multi_thread"])
p("C09","Nothing but the destination's own samples is ever written",
 "A conversion, copy or resize writes every sample of the destination and nothing else: padding between rows, bytes before, after and between planes, the area around a cropped window, unused planes and the source stay as they were. A refused call changes nothing at all, and what was in the destination before never influences the result.",
 ["inputs","configurations"],"all calls, layouts, previous contents of the destination, valid and refused arguments",
 "Tests never look at the bytes around the pixels.",
 ["src/lib.rs","src/copy.rs","src/formats","src/multi_thread.rs"],[("writers","src/formats/*/write.rs"),("checks before writing","src/lib.rs verify_input_windows"),("row-wise copy","src/copy.rs")],["convert","convert_multi_thread","copy"])
p("C10","Every safe image is handled or refused without touching foreign memory",
 "Whatever plane count, lengths, strides, size, format and colour a safe image implementation reports, converting, copying, cropping, resizing and checking it either works or returns an error, without panicking or accessing memory outside the planes given. Images whose planes hold all samples are accepted and images lacking any are refused.",
 ["inputs"],"all descriptions of images through the public image traits, sizes from 0 to the integer limits, all entry points, any thread count",
 "The suite has only well-formed images; the guarantee concerns the malformed ones, and the raw pointer code behind it.",
 ["src/image_traits.rs","src/planes.rs","src/lib.rs","src/plane_decs.rs","src/crop.rs","src/multi_thread.rs"],
 [("bounds check","src/image_traits.rs, src/pixel_format.rs, src/plane_decs.rs"),("plane access","src/planes.rs"),("entry checks","src/lib.rs")],["ImageRef::bounds_check","convert","convert_multi_thread","copy","Cropped::new","Resizer::resize"])
p("C11","Crop views show exactly their window of the parent",
 "A window is accepted exactly when it lies inside the image, for any coordinates up to the integer limits. The view then has the window's size and the parent's format, colour and strides, exposes exactly the parent's samples at that position for reading and writing, passes its own bounds check, and a crop of a crop is the composed window.",
 ["inputs"],"all formats, sizes, layouts and windows including empty, edge-touching, out-of-range and overflowing ones; nesting",
 "Two fixed windows of two formats are tested.",
 ["src/crop.rs","src/plane_decs.rs"],[("window validation","src/crop.rs Cropped::new"),("plane offsets","src/crop.rs crop_planes")],["Cropped::new","CropExt::crop","planes","planes_mut"])
p("C12","Images are only constructed from buffers that hold them",
 "Constructing an image from a buffer or from planes succeeds exactly when every plane holds all its rows at the given or packed strides, and returns an error otherwise, never panicking; the constructed image reports what it was given and exposes each plane at its proper place in the buffer. A blank image holds exactly the packed size, zero filled.",
 ["inputs"],"all formats, sizes and strides up to the integer limits, stride lists, buffer lengths including one byte short, plane counts and buffer owners",
 "Tests construct a few well-formed images.",
 ["src/image.rs","src/planes.rs","src/plane_decs.rs"],[("buffer splitting","src/image.rs split_buffer"),("construction check","src/image.rs"),("plane inference","src/planes.rs infer")],["Image::blank","Image::from_buffer","Image::from_planes"])
p("C13","Arguments are validated: valid conversions succeed, others name the reason",
 "Every pair of formats can be converted for every combination of colour descriptions that fits them and every even size, by all entry points. Different sizes, odd sizes and RGB colour information on a YUV image are refused with the error naming that reason, and no call panics.",
 ["inputs","configurations"],"all 225 format pairs, colour descriptions (valid or not), sizes, entry points, thread counts",
 "The suite touches a fraction of the pairs and none of the errors.",
 ["src/lib.rs","src/formats","src/multi_thread.rs","src/copy.rs"],[("argument checks","src/lib.rs"),("dispatch","src/lib.rs read_any_to_rgba, rgba_to_any")],["convert","convert_multi_thread","copy"])
p("C14","Resizing resamples each component with the chosen filter",
 "Resizing gives, for every format, each component resampled on its own from the source's to the destination's size with the selected filter, independent of layout, thread count and earlier use of the resizer. Results stay within the component's bit depth, non-overshooting filters stay within the source's extremes, the same size with nearest neighbour is the identity, and different formats are refused.",
 ["inputs","histories","configurations"],"all formats, sizes including 1, filters, layouts and sequences of calls on one resizer",
 "The suite resizes one image and looks at it by eye.",
 ["src/resize.rs","src/plane_decs.rs"],[("plane views","src/resize.rs"),("bit depth clamp","src/resize.rs")],["Resizer::resize"])
p("C15","Buffer size, strides, offsets and plane split agree with the format",
 "For every format and size, the reported buffer size, packed strides, plane count and the inferred plane split are those the format's definition gives, agree with each other, and planes are consecutive and do not overlap. Buffers that are too small are refused, and strides given by the caller are honoured.",
 ["inputs"],"all formats, sizes and strides",
 "Tests check one even size of some formats.",
 ["src/pixel_format.rs","src/planes.rs","src/plane_decs.rs"],[("plane descriptions","src/plane_decs.rs"),("size arithmetic","src/pixel_format.rs"),("inference","src/planes.rs")],["PixelFormat::buffer_size","PixelFormat::packed_strides","infer*"])
p("C16","Alpha is preserved or opaque and never affects colour",
 "Between formats with alpha the alpha channel is carried over unchanged whatever happens to the colour, an image gaining alpha becomes fully opaque, and colour components never depend on alpha values.",
 ["inputs","configurations"],"all conversions with at least one format carrying alpha, all alpha values",
 "Test images are opaque.",
 ["src/formats/rgba","src/formats/transfer_and_primaries_convert.rs"],[("alpha lanes","src/formats/rgba/read.rs, write.rs"),("alpha default","src/formats/*/mod.rs")],["convert"])
p("C17","10 and 12 bit results never exceed their code range",
 "Whatever the source and colours, samples written to 10 and 12 bit formats lie within their bit depth, and out-of-range values saturate at the nearest end of the range instead of wrapping.",
 ["inputs","configurations"],"all conversions into 10 and 12 bit formats, including out-of-gamut and out-of-range sources",
 "No test converts values that leave the destination's range.",
 ["src/vector","src/formats"],[("saturation on write","src/formats/*/write.rs, src/vector/*.rs")],["convert"])
p("C18","Grey stays grey, with brightness order kept",
 "A grey pixel stays grey (neutral chroma or equal red, green and blue) under every conversion between matrix and RGB descriptions, full black and white are kept by conversions that share a transfer function's range, and a brighter grey never becomes darker. Equal pixels give equal results wherever they are in the image.",
 ["inputs","configurations"],"all grey levels, format pairs, colour descriptions",
 "Tests check few colours; a bias of one code or one lane is within their tolerance.",
 ["src/color","src/formats"],[("matrix rows sum to one/zero","src/color/space.rs"),("white-preserving primaries","src/color/primaries.rs")],["convert"])
p("C19","The build's instruction set and features do not change results",
 "The same call gives the same outcome and the same samples, up to the rounding latitude of the curves, in builds with and without the optional features and with the different vector instruction sets the crate selects. Errors are the same in every build.",
 ["inputs","configurations"],"all conversions and copies; default, no-default-features and AVX-512 builds",
 "A test run exercises one build on one machine.",
 ["src/vector","src/formats/visit_2x2.rs","Cargo.toml"],[("instruction set selection","src/formats/visit_2x2.rs, src/vector/mod.rs"),("feature gates","src/lib.rs")],["convert","copy"])
p("C20","References, views, clones and owners all stand for the same image",
 "An image behaves the same whatever holds its bytes (one buffer or planes; owned, borrowed or shared; made blank and filled) and however it is passed on: through references, mutable references, windows of the whole image, and any nesting of them. Every layer reports the same format, size, colour, strides and memory, and calls through it give the results and writes of the bare image. A clone is equal to its original and independent of it; taking a view apart returns the image it was made from.",
 ["inputs","histories","configurations"],"all owners, up to three nested layers per side, all calls taking images, formats, sizes and colours",
 "Tests pass plain images of one owner type directly; the wrappers only forward, so nothing in the suite would notice one that forwards the wrong thing.",
 ["src/image_traits.rs","src/image.rs","src/crop.rs"],[("forwarding impls for &T and &mut T","src/image_traits.rs"),("generic owners","src/image.rs: Buffer"),("window composition and into_inner","src/crop.rs")],["ImageRef/ImageMut methods","convert","convert_multi_thread","copy","Resizer::resize"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
