#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}})
D="src/codecs/"
p("C01","Lossless formats: encoding then decoding returns the same image",
 "For every image within the size limits of the format and its decoder, and every encoder option, writing the image in a lossless format (PNG, BMP, TGA, TIFF, PNM, QOI, farbfeld, ICO, WebP, OpenEXR, and Radiance HDR for values it can represent) and reading the bytes back yields the same dimensions and exactly the same samples, up to the documented lossless change of colour type (e.g. BMP stores grey as RGB and drops the alpha of grey-alpha; WebP widens grey to RGB).",
 ["inputs","configurations"],"all dimensions, colour types, sample values and encoder options (compression, filter, RLE on/off, PNM subtype)",
 "Tests round-trip a few fixed images per codec; run-length, row-padding, palette and filter paths depend on run lengths, row parities and value patterns no test enumerates.",
 [D+"png.rs",D+"bmp/",D+"tga/",D+"tiff.rs",D+"pnm/",D+"qoi.rs",D+"farbfeld.rs",D+"ico/",D+"webp/",D+"openexr.rs",D+"hdr/"],
 [("encoders",D+"*/encoder.rs"),("run-length coding",D+"tga/encoder.rs, "+D+"hdr/encoder.rs")],"ImageEncoder::write_image then ImageReader::decode")
p("C02","Decoding arbitrary bytes never panics, aborts, hangs or overflows",
 "Whatever bytes are handed to any decoder, opening, querying and decoding them ends, in time bounded by a function of the input's length and the dimensions it declares, with an image or with an error; it never panics, overflows arithmetic, indexes out of bounds or exhausts the stack. Going through an animation's frames ends too, also for a caller who goes on past errors. The same holds for every truncation of a file and every corruption of its header fields.",
 ["inputs"],"all byte strings; every prefix of, and every few-byte substitution with boundary values in, files of each format",
 "Tests hold a handful of regression files; each arithmetic expression over header fields needs particular extreme combinations.",
 [D],[("header parsing",D+"*/decoder.rs")],"ImageReader::into_decoder / decode")
p("C03","Decoding does not depend on how the reader delivers its bytes",
 "For every file, the outcome of identifying and decoding it (success or failure, dimensions, colour type and every sample) is the same whatever sizes of chunks the reader delivers and wherever it interposes an interruption that asks to be retried.",
 ["fault_sequences","inputs"],"all sequences of short reads and interruptions over files of each format",
 "Tests read from files and cursors, which always deliver all that is asked for.",
 [D,"src/image_reader/"],[("read loops",D+"bmp/decoder.rs, "+D+"tga/decoder.rs, "+D+"pnm/decoder.rs, "+D+"hdr/decoder.rs")],"reader with scripted answers")
p("C04","A failing read is reported, never turned into an image",
 "If the reader fails, once or permanently, at any point before a decoder has consumed what it needs, the decoding call returns an error and not a successful image; an image is only ever returned if it equals the one a fault-free run returns.",
 ["fault_sequences"],"every position of a failing read or seek during decoding of files of each format",
 "No test injects I/O errors.",
 [D,"src/image_reader/image_reader_type.rs"],[("error propagation",D+"*/decoder.rs")],"reader failing at the k-th call")
p("C05","Encoding is independent of the writer's chunking and reports every failure",
 "Whatever sizes of pieces the writer accepts and wherever it asks to be retried, encoding an image delivers exactly the same bytes; and if the writer (or the file system, when saving to a path) fails permanently at any point, the encoding or saving call returns an error.",
 ["fault_sequences","inputs"],"every position and kind of short, interrupted or failing write, flush and seek, for every encoder",
 "No test writes through anything but memory or a healthy file.",
 [D,"src/image_reader/free_functions.rs","src/dynimage.rs"],[("buffered saving","src/image_reader/free_functions.rs save_buffer*")],"writer with scripted answers; /dev/full")
p("C06","Configured limits on dimensions and allocation are enforced",
 "A decoder given limits returns a limit error instead of an image whenever the image is wider or higher than the configured maxima, and otherwise never fails on account of them; with an allocation limit set, decoding an image whose pixel buffer exceeds it fails, and the reader never allocates the output buffer beyond it, nor does an animation decoder hold more pixels than it allows. Limits that the image satisfies do not change what is decoded.",
 ["inputs","configurations"],"all image sizes against all limit values around them, all formats",
 "Tests cover one or two limit settings on a few formats.",
 ["src/image_reader/mod.rs","src/image_reader/image_reader_type.rs","src/image.rs",D],[("limit checks","src/image_reader/mod.rs, set_limits of each decoder")],"ImageReader::limits, ImageDecoder::set_limits, the allocator")
p("C07","A decoder's metadata agrees with the image it delivers",
 "For every file a decoder opens, the dimensions, colour type and byte count it announces are those of the image it delivers; reading fills the whole destination independently of its previous contents, decoding twice gives the same result, and reading through a boxed decoder or the high-level reader gives what the concrete decoder gives.",
 ["inputs"],"all files of all formats, both access paths, all prior contents of the destination",
 "Tests compare a few decoded images with references through one path only.",
 ["src/image.rs","src/image_reader/free_functions.rs",D],[("ImageDecoder","src/image.rs")],"ImageDecoder methods")
p("C08","Reading a rectangle equals cropping the decoded image",
 "For decoders that can read rectangles, every sequence of rectangle reads, in any order, with any row pitch, each delivers exactly the corresponding crop of the full image and leaves the padding bytes alone; a rectangle outside the image or a destination that is too small is refused without damage to later reads.",
 ["histories","inputs"],"all sequences of rectangles (inside and outside) of small images, all pitches",
 "Tests read one or two rectangles of one image.",
 [D+"farbfeld.rs",D+"bmp/decoder.rs","src/image_reader/free_functions.rs"],[("load_rect","src/image_reader/free_functions.rs")],"ImageDecoderRect::read_rect")
p("C09","What an encoder accepts can be decoded again with the same shape",
 "For every format, colour type and size, an encoding call either returns an error or produces a file that the library's own decoder for that format decodes to an image of the same dimensions; combinations that a format does not support are refused with an error and never panic.",
 ["inputs","configurations"],"all formats x colour types x dimensions including zero and the format's maxima",
 "Tests try the supported combinations at one size.",
 [D,"src/image_reader/free_functions.rs"],[("encoders",D+"*/encoder.rs")],"write_buffer_with_format")
p("C10","Pixel buffers behave as a matrix of pixels under every operation sequence",
 "An image buffer of any dimensions behaves like a width x height matrix: every construction accepts exactly the containers large enough, access by coordinates is in bounds exactly when inside the image, reads return the last write, and the pixel, row and enumerating iterators (shared and mutable, from either end, in any interleaving) yield each pixel once in row-major order with its own coordinates and exact remaining lengths.",
 ["histories","inputs"],"all small dimensions, container lengths and operation sequences; all interleavings of next/next_back/nth",
 "Tests iterate forward over one or two images.",
 ["src/buffer.rs","src/image.rs"],[("iterators","src/buffer.rs Pixels, Rows, EnumeratePixels, EnumerateRows")],"ImageBuffer, GenericImageView")
p("C11","Parallel pixel iteration equals sequential iteration under every split",
 "However the work-stealing scheduler splits and orders the work, parallel iteration over pixels (plain, enumerated and mutable) visits each pixel exactly once with the same coordinates as sequential iteration, and building an image from a function in parallel gives the same image as building it sequentially.",
 ["schedules","inputs"],"all split trees and all execution orders of the pieces, all small dimensions",
 "Tests run whatever schedule the pool happens to choose on one image.",
 ["src/buffer_par.rs"],[("indexed parallel iterators","src/buffer_par.rs with_producer / drive")],"rayon producers driven by the explorer")
p("C12","Views and copies touch exactly the requested rectangle",
 "A view of a rectangle, and a view of a view, shows exactly the pixels of that rectangle; writing through it, copying another image into a position, and copying a rectangle within an image (overlapping or not) change exactly the destination pixels to the source's previous values; requests that do not fit are refused and change nothing, with no arithmetic overflow.",
 ["inputs","histories"],"all rectangles (including extreme coordinates) of small images, sequences of nested views and copies",
 "Tests use one position each; overlap directions and edge-touching rectangles are unsampled.",
 ["src/image.rs","src/buffer.rs","src/imageops/mod.rs"],[("SubImage","src/image.rs"),("copy_within","src/buffer.rs")],"SubImage, GenericImage::copy_from, copy_within")
p("C13","Flat sample layouts: safe indexing and truthful predicates",
 "For every stride layout, a coordinate maps to a position only inside the described extents and inside the buffer, the predicates (fits, aliased, packed, normal form) hold exactly when the set of described positions has that property, and conversions to views or buffers succeed only if every pixel is then addressable without panic or aliasing; no arithmetic overflows.",
 ["inputs"],"all layouts with small or extreme extents and strides, all buffer lengths",
 "Tests check half a dozen layouts.",
 ["src/flat.rs"],[("SampleLayout","src/flat.rs")],"flat::FlatSamples, SampleLayout")
p("C14","Flips and rotations are exact permutations obeying the dihedral group laws",
 "Rotating by 90, 180 or 270 degrees and flipping move every pixel to the geometrically defined place and change no value, in-place variants equal the out-of-place ones, every composition of them equals the single transformation of the composed group element, and applying an orientation performs its documented transformation; an orientation converts to and from its EXIF code without loss.",
 ["inputs","histories"],"all small images, colour types, and words over the transformations up to the bound",
 "Tests check one 3x2 image per operation.",
 ["src/imageops/affine.rs","src/dynimage.rs","src/metadata.rs"],[("affine","src/imageops/affine.rs")],"imageops::*, DynamicImage::apply_orientation")
p("C15","Colour conversions are in range, monotone, consistent and lossless when widening",
 "Converting a pixel between any two colour types never panics, keeps black black and white white, is monotone in every channel, gives opaque alpha when alpha is added, leaves grey pixels' value unchanged up to rounding, and rounds to the nearest value when depth changes; widening depth or adding channels and converting back returns the original pixel exactly. Grey is the luminance 0.2126 R + 0.7152 G + 0.0722 B to within one unit, and a whole-image conversion converts each pixel.",
 ["inputs"],"all 8-bit sample values and tuples on a dense boundary grid, all 16-bit values, all pairs of the ten colour types, float extremes",
 "Tests convert a handful of pixels.",
 ["src/color.rs","src/dynimage.rs","src/buffer.rs","src/traits.rs"],[("FromColor / FromPrimitive","src/color.rs")],"Pixel conversions, ConvertBuffer, DynamicImage::to_*")
p("C16","Blending and overlaying implement source-over compositing in bounds",
 "Blending a pixel onto another never panics for any samples, a fully transparent source changes nothing, a fully opaque source replaces, and otherwise the result is source-over compositing to within rounding; overlaying, tiling, replacing and gradient drawing at any position, including negative and far outside, affects exactly the intersection with the destination.",
 ["inputs"],"all 8-bit (source, alpha, destination, alpha) tuples on a dense grid, all placements of small images including extremes of the coordinate type",
 "Tests blend two or three pixels and overlay at two positions.",
 ["src/color.rs","src/imageops/mod.rs"],[("Blend","src/color.rs"),("overlay bounds","src/imageops/mod.rs")],"Pixel::blend, imageops::overlay/replace/tile")
p("C17","Point-wise colour operations follow their definition and never panic",
 "Inverting, brightening, adjusting contrast, rotating hue, converting to greyscale and mapping pixels apply their documented point-wise function to every pixel (alpha untouched where documented), saturate at the sample range instead of wrapping, and never panic for any parameter; inverting twice is the identity, in-place variants equal the copying ones, and all colour types agree.",
 ["inputs"],"all 8-bit samples, 16-bit and float boundary samples, all parameter values on a grid with extremes",
 "Tests use one image and parameter per operation.",
 ["src/imageops/colorops.rs","src/dynimage.rs"],[("colorops","src/imageops/colorops.rs")],"imageops::colorops, DynamicImage")
p("C18","Resizing keeps shape, range and constancy for every size and filter",
 "Resizing to any dimensions with any filter gives an image of the requested (or, for aspect-preserving variants, the documented fitted or filling, never zero) dimensions, filling crops the middle of the scaled image, never panics or divides by zero, maps constant images to the same constant, leaves an image resized to its own size unchanged, stays within the range of the input for non-negative filters, and nearest-neighbour and thumbnail output depends only on the documented source region.",
 ["inputs","configurations"],"all pairs of small source and target sizes, extremes of size, all filters, basis images",
 "Tests resize one picture to a few sizes.",
 ["src/imageops/sample.rs","src/math/utils.rs","src/dynimage.rs"],[("horizontal/vertical sampling","src/imageops/sample.rs"),("fit and fill","src/math/utils.rs")],"imageops::resize, thumbnail, DynamicImage::resize*")
p("C19","GIF animations composite according to the format's rules",
 "Each frame delivered from a GIF is the full canvas that the specification's rules give for the sequence of frame rectangles, transparency and disposal methods so far, with the frame's delay; the still image is the first frame, and frames that reach outside the canvas never panic or write elsewhere.",
 ["histories"],"all sequences up to the depth of frames over positions, sizes, disposal methods, transparency and palettes on a small canvas",
 "Tests cover a few files; sequences of disposal methods are unsampled.",
 [D+"gif.rs"],[("frame iterator",D+"gif.rs GifFrameIterator")],"GifDecoder::into_frames")
p("C20","APNG animations composite according to the format's rules",
 "Each frame delivered from an animated PNG is the full canvas that the specification gives for the sequence of frame rectangles, blend and dispose operations so far, with the frame's delay; frames come in order, as many as declared, and the still image is the default image.",
 ["histories"],"all sequences up to the depth of frames over positions, sizes, dispose and blend operations on a small canvas",
 "Tests cover one APNG; combinations of consecutive dispose operations are unsampled.",
 [D+"png.rs"],[("ApngDecoder::mix_next_frame",D+"png.rs")],"ApngDecoder::into_frames")
p("C21","Formats are identified consistently from content, extension and MIME type",
 "Every file an encoder of this library writes is identified by content as its own format (where the format has a signature) and decodes without being told the format; identification depends only on the leading bytes, never panics on any prefix or short input, and leaves the reader positioned as before; every format's extensions map back to that format whatever their letter case, and so does its MIME type wherever that is specific to the format.",
 ["inputs","configurations"],"all formats, all extension letter cases, all prefixes and single-byte changes of signatures",
 "Tests list some examples.",
 ["src/image.rs","src/image_reader/free_functions.rs","src/image_reader/image_reader_type.rs"],[("magic bytes","src/image_reader/free_functions.rs")],"guess_format, ImageFormat, ImageReader")
p("C22","BMP files decode and encode according to the format",
 "Every well-formed BMP (any header version, bit depth, palette, RLE stream, channel masks, row order and padding) decodes to the pixels that the format's definition gives, malformed ones are refused, and every file the encoder writes (with or without a palette) is well-formed and says exactly the image given, down to its sizes, or nothing is written.",
 ["inputs"],"all header versions x bit depths x row orders x small sizes; all RLE command streams up to a length; all contiguous mask layouts",
 "Tests decode fixed files only.",
 [D+"bmp/decoder.rs",D+"bmp/encoder.rs"],[("row readers, RLE, bitfields",D+"bmp/decoder.rs"),("headers, palettes, rows",D+"bmp/encoder.rs")],"BmpDecoder vs an independent reference decoder; BmpEncoder read by an independent reader")
p("C23","PNM files decode and encode according to the format",
 "Every well-formed PBM, PGM, PPM (ASCII and binary) and PAM file, with any permitted whitespace, comments, and maximum value, decodes to its samples scaled to the full range, malformed headers and truncated rasters are refused, and encoding with a chosen header that agrees with the image succeeds exactly when every sample is within the header's maximum, and then decodes to the image described.",
 ["inputs","configurations"],"all token separations and comments, maxima around powers of two, all small sizes incl. bit-packed widths, all header kinds x colour types",
 "Tests contain a few dozen files and headers.",
 [D+"pnm/"],[("header parser and sample decoding",D+"pnm/decoder.rs"),("tuple/header checks",D+"pnm/encoder.rs")],"PnmDecoder, PnmEncoder vs a reference")
p("C24","TGA files decode and encode according to the format",
 "Every well-formed TGA (grey, true-colour or colour-mapped, raw or run-length coded with any packet split, any origin, with or without identifier) decodes to the pixels that the format's definition gives, malformed ones are refused, and every file the encoder writes, with and without run lengths, is well-formed and says exactly the image given.",
 ["inputs"],"all image types x depths x origins x map layouts on small sizes, all packet sequences up to a length",
 "Tests decode a handful of files.",
 [D+"tga/decoder.rs",D+"tga/header.rs",D+"tga/encoder.rs"],[("packet expansion, flips",D+"tga/decoder.rs"),("packets",D+"tga/encoder.rs")],"TgaDecoder vs a reference; TgaEncoder read by an independent reader")
p("C25","Radiance HDR files decode according to the format and round-trip closely",
 "Every well-formed Radiance file (flat, old-style and new-style run-length scanlines, any header attributes) decodes to mantissa x 2^(exponent-136) per channel; and writing any image of finite non-negative values and reading it back gives values within the precision of the format's shared exponent of the originals, never wild ones.",
 ["inputs"],"all run structures up to a bound, all exponents, boundary mantissas; float boundary values",
 "Tests decode one file.",
 [D+"hdr/"],[("RLE scanlines",D+"hdr/decoder.rs"),("to_rgbe8",D+"hdr/encoder.rs")],"HdrDecoder, HdrEncoder vs a reference")
p("C26","DDS block-compressed images decode to the pixels the format defines",
 "Every well-formed DXT1, DXT3 and DXT5 texture decodes to the palette interpolation its blocks define, each block at its own place; malformed headers and unsupported pixel formats are refused.",
 ["inputs"],"all index values, alpha codes and endpoint orders on boundary colours; all small block grids",
 "No test decodes DDS pixels.",
 [D+"dds.rs",D+"dxt.rs"],[("block decoding",D+"dxt.rs")],"DdsDecoder vs a reference")
p("C27","ICO files yield the best entry with mask applied",
 "From an icon file with any entries, the decoder delivers the entry of greatest bit depth and then area, whether stored as PNG or BMP, with the transparency mask applied and the directory's dimensions verified against the image's.",
 ["inputs"],"all directories of up to three entries over sizes and depths, all small masks and both encodings",
 "Tests decode a few icons.",
 [D+"ico/"],[("best_entry, AND mask",D+"ico/decoder.rs")],"IcoDecoder vs a reference")
p("C28","JPEG encoding yields close images for every size and quality",
 "For every size up to the format's maximum, every supported colour type and every quality, JPEG encoding produces a file that decodes to the same dimensions with samples close to the original (within a bound that shrinks with quality); sizes the format cannot store are refused.",
 ["inputs","configurations"],"all sizes through two blocks in each direction, all qualities 0..255, basis-function and extreme-contrast images",
 "Tests encode two small images at one quality.",
 [D+"jpeg/encoder.rs",D+"jpeg/transform.rs",D+"jpeg/entropy.rs"],[("block copying, DCT, Huffman",D+"jpeg/")],"JpegEncoder then JpegDecoder and an independent parse")
p("C29","Frame delays are exact ratios and convert without overflow",
 "A frame delay built from any numerator and denominator represents exactly that ratio of milliseconds, delays compare as ratios, and conversions to and from durations never panic or overflow, saturate for huge durations and are within one millisecond's representable error otherwise; the delay written to a file is read back unchanged where the format can express it.",
 ["inputs"],"all ratios over boundary numerators and denominators, durations around every rounding and saturation boundary",
 "Tests check four durations.",
 ["src/animation.rs"],[("Ratio, closest_bounded_fraction","src/animation.rs")],"animation::Delay")
p("C30","Colour profiles, EXIF and orientation survive encoding and decoding",
 "Metadata (ICC profile, EXIF data and the orientation in it) given to an encoder that accepts it is returned unchanged by the decoder of that format; orientation is taken from any well-formed EXIF block of either byte order wherever the entry stands, and malformed blocks never panic.",
 ["inputs","configurations"],"all codecs x payload sizes x byte orders x positions of the tag; all truncations and field corruptions of small EXIF blocks",
 "Tests read a few fixture files.",
 ["src/metadata.rs",D],[("orientation parsing","src/metadata.rs")],"ImageDecoder::icc_profile/exif_metadata/orientation, ImageEncoder::set_icc_profile")
p("C31","AVIF encoding accepts every image and option without panicking",
 "AVIF encoding of any supported image at any speed, quality and thread setting either succeeds, giving a well-formed file of the right dimensions that is close in content, or returns an error, independently of how the pixel data is aligned.",
 ["inputs","configurations"],"small sizes x options x alignments",
 "No test encodes AVIF.",
 [D+"avif/encoder.rs"],[("cast or copy of pixel data",D+"avif/encoder.rs")],"AvifEncoder")
p("C32","A dynamic image behaves as the typed image it holds",
 "For every colour type, every operation of a dynamic image (accessors, conversions, cropping, drawing, resizing, filtering, writing and saving) gives the same result as the same operation on the typed image it holds; conversions into typed images and raw bytes keep the pixels, and rebuilding from parts succeeds exactly for matching sizes.",
 ["inputs","configurations"],"all ten colour types x all operations x small images and parameters",
 "Tests try one or two variants of each dispatch.",
 ["src/dynimage.rs"],[("dynamic_map","src/dynimage.rs")],"DynamicImage")
p("C33","Colour maps and dithering choose the nearest colours and stay in bounds",
 "Mapping an image to a colour map's indices chooses for each pixel the index the map defines, expanding indices gives the colours back, out-of-range indices are reported as absent, and dithering leaves every pixel a colour of the map, with images already in the map's colours unchanged.",
 ["inputs"],"all 8-bit colours through the bilevel map, all small images over boundary colours, all indices",
 "Tests map a 5-pixel image.",
 ["src/imageops/colorops.rs"],[("BiLevel, dither","src/imageops/colorops.rs")],"imageops::dither, index_colors, ColorMap")
p("C34","Filters keep dimensions, range and constants at every size",
 "Convolving with a 3x3 kernel computes the documented weighted sum clamped to the range, blurring (Gaussian or fast) and unsharpening keep the dimensions, leave constant images unchanged and stay in the range of their input (blurs), commute with the symmetries of the image, and never panic for any size, colour type or parameter, including zero, negative, huge and non-finite ones where not documented to.",
 ["inputs","configurations"],"all small sizes x colour types x sigmas and kernels on a grid with extremes, basis images",
 "Tests blur one picture.",
 ["src/imageops/sample.rs","src/imageops/fast_blur.rs"],[("filter3x3, blur, unsharpen","src/imageops/sample.rs"),("box passes","src/imageops/fast_blur.rs")],"imageops::blur, fast_blur, filter3x3, unsharpen")
p("C35","AVIF pictures decode to the colours their bitstreams define",
 "An AVIF picture decodes to the RGBA values that its luma and chroma planes, matrix coefficients, value range, chroma layout and bit depth define (each chroma sample covering its block, up to fixed-point rounding), for every size including odd ones; full-range neutral colours and alpha are rescaled exactly, so full scale stays full scale; the alpha plane, of any bit depth, becomes the alpha channel and pictures without one are opaque; matrices and layouts that are not supported are refused with an error, never a panic or undefined behaviour.",
 ["inputs","configurations"],"all layouts x depths x ranges x matrices x sizes up to a bound x contents x alpha depths and sizes",
 "Tests decode a handful of AVIF files and compare checksums.",
 ["src/codecs/avif/decoder.rs","src/codecs/avif/yuv.rs"],[("get_matrix, process_16bit_picture","src/codecs/avif/decoder.rs"),("YUV to RGB","src/codecs/avif/yuv.rs")],"AvifDecoder (feature avif-native)")
p("C36","PNG files decode to the pixels the format defines",
 "A PNG file of any colour type, bit depth, interlacing, row filters, palette, transparency and division of its data decodes to exactly the pixels that the format defines: depths below eight bits and gray scale up to full range, palettes and transparent colours applied as colours and alpha, 16-bit samples in native byte order, ancillary chunks without influence; the announced gamma is the file's (or that of sRGB); undefined headers, missing palettes, corrupted check sums and incomplete data are refused.",
 ["inputs"],"all 15 colour and depth pairs x interlacing x sizes x filters x palettes x transparency x divisions of the data",
 "Tests decode the PNG suite once and compare it with references; no test combines sizes, filters and passes.",
 [D+"png.rs"],[("PngDecoder::with_limits, read_image",D+"png.rs")],"PngDecoder, ImageReader::decode")
p("C37","TIFF files decode to the pixels the format defines",
 "A TIFF file in either byte order, of gray (black or white at zero), RGB, RGBA or CMYK pixels of 8 or (except CMYK) 16 bits, in strips or tiles of any size, with any supported compression and predictor and any permitted tag types, decodes to the pixels of its first directory; everything else (other sample formats, depths, colour models, separate planes, incomplete directories or data) is refused with an error and never a panic or another image.",
 ["inputs"],"all kinds of pixels x byte orders x sizes x strips and tiles x compressions x predictor x tag types; all CMYK pairs; all other formats and depths",
 "Tests decode a dozen files, most of them compared with references once.",
 [D+"tiff.rs"],[("colour type and sample format checks",D+"tiff.rs TiffDecoder::new"),("cmyk_to_rgb",D+"tiff.rs")],"TiffDecoder, ImageReader::decode")
p("C38","GIF files decode to their colours and encoding keeps up to 256 colours exactly",
 "A still GIF of any size, colour table (global or local, any length), transparent index, interlacing and coding decodes to the pixels the format defines; and what the encoder is given comes back: every frame with up to 256 colours exactly (zero alpha transparent, any other opaque), at its offset on the canvas of the first frame, with its delay rounded down to centiseconds and the requested number of repetitions; with more colours, transparent pixels still come back transparent.",
 ["inputs","histories"],"all table lengths and sizes up to a bound, codings and blocks; all sequences of up to three frames over a set of sizes, positions, transparencies and delays",
 "Tests decode a few files and encode one frame.",
 [D+"gif.rs"],[("GifDecoder::read_image",D+"gif.rs"),("convert_frame, encode_gif",D+"gif.rs")],"GifDecoder, GifEncoder")
p("C39","QOI and farbfeld files decode and encode according to their formats",
 "A QOI file of any sequence of opcodes (literal pixels, recalled pixels, small and luma differences with wrap-around, runs) of three or four channels decodes to the pixels its specification defines, and a farbfeld file to its big-endian 16-bit samples in native byte order; what the encoders write are files from which the specification reads back exactly the image; other signatures, channel counts, colour spaces, zero sizes (QOI) and incomplete files are refused.",
 ["inputs","histories"],"all sequences of up to five opcodes over 29 (33); all operands; all images of five pixels over six colours; all 16-bit values; all signature bytes and cuts",
 "Tests decode one QOI file and read rectangles of one farbfeld image.",
 [D+"qoi.rs",D+"farbfeld.rs"],[("QoiDecoder, QoiEncoder",D+"qoi.rs"),("FarbfeldReader, encode_impl",D+"farbfeld.rs")],"QoiDecoder, QoiEncoder, FarbfeldDecoder, FarbfeldEncoder")
p("C40","OpenEXR files decode to the samples the format defines and are written exactly",
 "An OpenEXR file of scan lines or tiles, one or several parts, with half, float or integer channels in any company, decodes to the first part with red, green and blue: its samples as floats at their positions in the display window, whatever the origins of both windows, zero where the data window does not reach, with alpha if the file has it or as the caller prefers (opaque if missing); images without these channels, sub-sampled channels and incomplete files are refused; and what the encoder writes is a file from which the format reads back every bit.",
 ["inputs"],"all small windows and their relative positions; sizes x channels x sample kinds x compressions x tilings x levels x orders; all half floats; all lists of up to three (four) parts",
 "Tests compare two files with HDR and round-trip a few images; none moves a data window partly out of the display window.",
 [D+"openexr.rs"],[("OpenExrDecoder::read_image",D+"openexr.rs"),("header_index",D+"openexr.rs"),("write_buffer",D+"openexr.rs")],"OpenExrDecoder, OpenExrEncoder, ImageReader::decode")
p("C41","WebP images and animations decode to the pixels the format defines",
 "A lossless WebP image of any size, with any sequence of transforms, colour cache, groups of prefix codes and repetitions, alone or in an extended file, decodes to exactly the pixels it encodes, as RGBA if it announces alpha and as RGB otherwise; an alpha channel beside lossy data is applied exactly, with every filter; an animation yields its frames composed on the canvas in order (placed, blended or replacing, disposed of to the background, by default transparent) with their durations, and as an image its first frame; incomplete files and frames outside the canvas are refused.",
 ["inputs","histories"],"all sizes up to a bound x contents x prefix codes x caches; all 65 sequences of transforms; all predictors; palettes of all sizes; all sequences of up to three frames over places, contents, disposal and blending",
 "Tests decode a few files; none compares an animation with its definition.",
 [D+"webp/decoder.rs",D+"webp/encoder.rs"],[("WebPDecoder::read_image, color_type",D+"webp/decoder.rs"),("FramesInner::next",D+"webp/decoder.rs")],"WebPDecoder, AnimationDecoder::into_frames, ImageReader::decode")
p("C42","JPEG images decode to the pixels the format defines",
 "A baseline or progressive JPEG of any size and supported sampling (gray, YCbCr, Adobe RGB, CMYK and YCCK), with any restart interval, division into scans, quantisation tables, Huffman codes and other segments, decodes to an image of the frame's size, 8-bit gray if it has one component and 8-bit RGB otherwise, whose samples are, up to rounding, the inverse transform of its coefficients in the file's colour space converted to RGB, with subsampled planes interpolated from neighbours; lossless, hierarchical, arithmetic-coded and other than 8-bit frames, empty frames and cut headers are refused.",
 ["inputs"],"all sizes of a set around the block boundaries x samplings x restart intervals x divisions into scans; every coefficient; every gray level and a grid of colours in every colour space; every position of a quantisation table",
 "Tests decode a few files of common layouts; none compares with the transform.",
 [D+"jpeg/decoder.rs"],[("JpegDecoder::new, read_image",D+"jpeg/decoder.rs"),("to_supported_color_space",D+"jpeg/decoder.rs")],"JpegDecoder, ImageReader::decode")
p("C43","An encoder used repeatedly writes each image as a fresh encoder does",
 "For every encoder whose encoding methods may be called repeatedly on one value (JPEG, BMP, PNM), each call in any sequence of calls (of any colour types, sizes, entry points and palettes, accepted or refused, and also after a call that a failing writer has interrupted) succeeds exactly if it does on a newly created encoder with the same settings, and then adds exactly the same bytes to the writer.",
 ["histories","inputs"],"all sequences of three (four) calls out of 12 to 21 on every setting of the encoder; all pairs of calls with the writer failing at every byte of the first",
 "Tests use an encoder once.",
 [D+"jpeg/encoder.rs",D+"bmp/encoder.rs",D+"pnm/encoder.rs"],[("JpegEncoder::encode_image, BitWriter",D+"jpeg/encoder.rs"),("BmpEncoder::encode_with_palette",D+"bmp/encoder.rs"),("PnmEncoder::encode",D+"pnm/encoder.rs")],"JpegEncoder::encode, encode_image, BmpEncoder::encode, encode_with_palette, PnmEncoder::encode")
p("C44","Errors name their true cause",
 "When decoding or encoding fails, the class of the error tells the cause: a failure of the reader, the writer or the file system, at whatever point it strikes, is reported as an I/O error carrying that very failure (same kind and text); data that break off or are damaged give decoding, unsupported, limit or end-of-file errors, never encoding errors; colour types, sizes and metadata that an encoder refuses give unsupported, encoding or parameter errors, never I/O or decoding errors; an error that carries a format names the format at work, an exceeded limit is named for what it limits, and every error has a text and a chain of causes that ends.",
 ["faults","inputs"],"every call of the reader or writer failing with each of four kinds of errors, over every file, access path, encoder and entry point; every prefix; seven values of every header byte; 28 colour types and 11 sizes on every encoder",
 "Tests hardly look at the class of an error.",
 ["src/error.rs",D+"png.rs",D+"openexr.rs",D+"qoi.rs",D+"tiff.rs"],[("ImageError","src/error.rs"),("ImageError::from_png",D+"png.rs"),("to_image_err",D+"openexr.rs"),("decoding_error",D+"qoi.rs"),("from_tiff_decode",D+"tiff.rs")],"ImageError, ImageReader, ImageDecoder, AnimationDecoder, ImageEncoder, DynamicImage::write_to, save")
p("C45","Every way of reading and writing an image gives the same result",
 "After any sequence of settings an image reader has the format last set, guessed or cleared (guessing reads at the reader's position, leaves it there, and keeps the old format if the content tells none) and the limits last given, and decoding, asking for the dimensions or making a decoder then gives what a decoder of that format, made directly over the same bytes with those limits, gives; without a format it is refused. For every file, whole or cut, every entry point for reading (open, load, load_from_memory, readers over any source, image_dimensions) gives the same image or an error of the same class, and for every image and format every entry point for writing (save, save_with_format, write_to, save_buffer, write_buffer_with_format) writes what the format's encoder with its defaults writes, replacing what was there, or refuses what that refuses. Neither depends on where in memory the samples lie.",
 ["histories","inputs"],"all sequences of up to four (six) reader operations over ten files at three positions with five ways to begin and end; every corpus file, whole, cut at every length of a set and read as every format, on ten entry points; every format, extension, colour type and four sizes on seven entry points",
 "Tests go through one entry point and one setting at a time.",
 ["src/image_reader/image_reader_type.rs","src/image_reader/free_functions.rs","src/lib.rs","src/dynimage.rs","src/buffer.rs"],[("ImageReader","src/image_reader/image_reader_type.rs"),("write_buffer_impl, save_buffer_impl","src/image_reader/free_functions.rs"),("DynamicImage::write_to","src/dynimage.rs")],"ImageReader, open, load, load_from_memory, image_dimensions, save_buffer, write_buffer_with_format, DynamicImage::write_to, save, save_with_format")
p("C46","Colour types and pixels describe their samples faithfully",
 "For every colour type, the number of channels, the bits and bytes of a pixel, and whether it has colour or alpha are those its name says, the same for the plain and the extended type, and a new image of it has its size, its colour type, and width x height x bytes-per-pixel zero bytes. For every pixel and sample type, every view of a pixel (its channels, an index, a slice, the four-channel tuple, an image's sample layout) shows the same samples, writing one channel through any view changes that one alone, slices of a wrong length are never taken for a pixel, and samples turn into bytes in the machine's order.",
 ["inputs"],"all 27 extended colour types (Unknown with all 256 depths), ten colour types in 36 sizes, 12 sample types x 4 pixel types x 81 settings of the samples x slices of 0 to 9 samples, all 16-bit samples as bytes",
 "Tests look at a few colour types and at 8-bit pixels.",
 ["src/color.rs","src/traits.rs","src/dynimage.rs"],[("ExtendedColorType","src/color.rs"),("Pixel","src/traits.rs"),("DynamicImage::new","src/dynimage.rs")],"ColorType, ExtendedColorType, Pixel, PixelWithColorType, EncodableLayout, Primitive, DynamicImage::new")
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
