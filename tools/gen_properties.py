#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
L="src/loader/mod.rs"; B="src/loader/blend.rs"; F="src/binary/file.rs"; RF="src/binary/raw_file.rs"; FR="src/binary/raw_frame.rs"; CH="src/binary/chunk.rs"
C="src/binary/chunks/"
prop("C01","A completed save reads back as the sprite that was saved",
 "Whenever the bytes handed to the loader are those of a completely stored save (without tilemap cels), loading succeeds and reports exactly what was saved: canvas size and colour depth, every frame with its duration, every normal and group layer in order with name, opacity, blend mode, visibility and kind, every cel's position, size, layer and image (a linked cel uses the image it links to), every tag with range, direction and repeat count, every slice, the palette of an indexed sprite, and the user data of the sprite and of each layer, cel, tag and slice. This holds whatever happened before: earlier versions, saves torn by crashes, rejected loads, hot reloads and other sprites in use at the same time.",
 ["histories","crash_points","fault_sequences","inputs"],
 "every document history of an editor saving to storage (any edits, save mode, block order, crash, loss, restart), every instant at which a complete save is read back",
 "The tests load eight fixed fixture files once each in a quiet process and compare a handful of fields; they never load after a torn or failed load, never compare cels, tags' ranges, slices, links or opacities, and never see a generated document.",
 [L,F,FR,CH,"src/binary/header.rs","src/binary/palette.rs",C+"cel.rs",C+"layer.rs",C+"tags.rs",C+"slice.rs",C+"palette.rs",C+"old_palette.rs",C+"user_data.rs"],
 [("chunk stream parsing","src/binary/raw_frame.rs parse_rawframe, src/binary/chunk.rs parse_chunk"),("assembly of layers/frames/tags/slices and user-data association","src/binary/file.rs parse_file"),("loader view and linked cel resolution","src/loader/mod.rs AsepriteFile::load"),("palette precedence and construction","src/binary/palette.rs create_palette")],
 [("layers/frames/tags/images","the loaded sprite's tables","src/loader/mod.rs AsepriteFile")],
 ["AsepriteFile::load","AsepriteFile::{size,layers,frames,tags,slices}","AsepriteFile.file"])
prop("C02","Stored pixels read back exactly",
 "For every image of a completely stored save, decoding it yields exactly the saved pixels as RGBA: RGBA pixels verbatim, grayscale as value,value,value,alpha, and indexed through the saved palette with the transparent index fully transparent. This holds for every image size, for raw and compressed storage at any compression strength, and after any history of torn, rejected and superseded loads, using clean or previously used target buffers.",
 ["histories","crash_points","fault_sequences","inputs"],
 "every image of every complete save in every document/fault history; raw and deflate storage; target buffers that are fresh, dirty or oversized",
 "test_cel only checks that decoding does not fail on one file; no test looks at a decoded pixel, at grayscale, raw storage, large images, palette precedence, or at a reused buffer.",
 [L,"src/binary/palette.rs","src/binary/image.rs",C+"cel.rs",C+"palette.rs",C+"old_palette.rs","src/binary/color_depth.rs"],
 [("decode dispatch by colour depth and storage","src/loader/mod.rs load_image, decompress, grayscale_to_rgba, indexed_to_rgba"),("palette construction","src/binary/palette.rs")],
 (),["AsepriteFile::load_image"])
prop("C03","A rendered frame equals the sequential composition of its layers",
 "Rendering a frame produces exactly the picture obtained by laying the frame's cels over the buffer's previous contents one after another in layer order, each clipped to the canvas, combined with its layer's blend mode (Aseprite's formulas) and layer opacity, skipping group layers and layers not selected. The result is the same whichever calls on the same or other sprites run concurrently and at whatever points they are interrupted, before and after hot reloads.",
 ["schedules","histories","inputs","fault_sequences"],
 "every interleaving of render/decode/load calls of several threads over shared sprites, at every preemption point inside the library, for every generated sprite and frame",
 "test_combine/test_issue_4_* only assert that rendering returns Ok on fixtures, in one thread; blend.rs has no test; no test compares a composed pixel.",
 [L,B],
 [("composition loop and clipping","src/loader/mod.rs render_frame"),("blend functions","src/loader/blend.rs")],
 (),["AsepriteFile::render_frame"])
prop("C04","An interrupted save is rejected, never shown shortened or with left-overs",
 "If a save stopped early, so that the stored file is a proper prefix of the complete one (cut at any byte), loading it fails with an error; it never yields a sprite with fewer frames. Likewise a complete save followed by left-over bytes of an older, longer version (or any other appended bytes) is rejected with an error.",
 ["crash_points","fault_sequences","histories"],
 "every crash point of every save (every byte offset, frame and chunk boundaries included) and every left-over tail",
 "No test loads a truncated or over-long file; whether a cut at a frame boundary is noticed depends on the exact cut point.",
 [RF,FR,CH,"src/binary/header.rs"],
 [("all input must be consumed and every frame complete","src/binary/raw_frame.rs parse_frames"),("announced number of frames","src/binary/header.rs Header::frames, src/binary/raw_file.rs parse_raw_file")],
 [("header.frames","number of frames the writer announced","src/binary/header.rs")],
 ["AsepriteFile::load"])
prop("C05","Damaged storage never crashes the reader",
 "Whatever happens to the stored bytes (flipped bits, overwritten or zeroed fields and blocks, swapped, stale or repeated blocks, torn saves, short reads), loading either returns an error or a sprite. Every later operation on that sprite with an existing frame or image number (rendering with any selection, decoding, hashing, listing) again returns a result or an error: nothing panics, overflows the stack or aborts.",
 ["fault_sequences","crash_points","inputs"],
 "every sequence of storage faults applied to every saved sprite, and every later call on what still loads",
 "All fixtures are well-formed; the tests contain no damaged input at all.",
 [L,B,F,FR,CH,"src/binary/scalars.rs",C+"cel.rs",C+"user_data.rs",C+"palette.rs","src/binary/palette.rs"],
 [("error returns instead of panics in parsing","src/binary/**"),("bounds handling of layer indices","src/binary/file.rs parse_file"),("error returns in rendering and decoding","src/loader/mod.rs render_frame, load_image")],
 (),["AsepriteFile::load","AsepriteFile::render_frame","AsepriteFile::load_image","AsepriteFile::combined_frame_image"])
prop("C06","Damaged image data is reported, never shown",
 "Decoding an image succeeds only if its stored data is intact: a compressed stream must be complete, pass its checksum and expand to exactly width x height pixels, and raw data must have exactly the size the image needs; otherwise an error is returned. A successful decode overwrites every pixel of the target, so no previous buffer contents can show through, and rendering a frame that draws an undecodable image returns an error instead of a picture.",
 ["fault_sequences","inputs","histories"],
 "every fault in stored image data or image dimensions, every previous content of the target buffer, every frame and selection drawing the image",
 "No test damages image data or reuses a buffer between decodes.",
 [L,"src/binary/image.rs",C+"cel.rs"],
 [("stream end and size checks","src/loader/mod.rs decompress, load_image, grayscale_to_rgba, indexed_to_rgba"),("error propagation","src/loader/mod.rs render_frame")],
 (),["AsepriteFile::load_image","AsepriteFile::render_frame"])
prop("C07","Damage to one image stays contained",
 "If only the stored pixel data of some images is damaged, the sprite still loads with all its other information unchanged. Every other image decodes as before, and every frame and layer selection that does not draw a damaged image renders exactly as from the undamaged file, also after renders that failed because of the damage and concurrently with them.",
 ["fault_sequences","histories","schedules"],
 "every subset of damaged images and damage pattern, every order and interleaving of failing and succeeding calls",
 "No test has a failing call followed by a succeeding one, nor damaged image data.",
 [L,C+"cel.rs",F],
 [("image data is kept opaque until decoded","src/binary/chunks/cel.rs parse_cel_chunk"),("per-call decoding without shared state","src/loader/mod.rs render_frame, load_image")],
 (),["AsepriteFile::load","AsepriteFile::render_frame","AsepriteFile::load_image"])
prop("C08","Sharing a loaded sprite between threads changes nothing",
 "Any number of threads may use loaded sprites at the same time: every call returns what the same call returns when it is the only call ever made on a fresh load of the same bytes, at every interleaving, also while other calls fail, a caller-supplied predicate panics, threads stall, and new versions are loaded into reused memory. No call alters what a loaded sprite reports, and no call waits forever.",
 ["schedules","histories","fault_sequences"],
 "every interleaving (preemption at every control-flow edge, allocation and lock operation of the library) of calls by several threads over several sprites, with failing, panicking and stalled callers",
 "All tests are single-threaded and use a sprite once; shared state, caches and lock misuse only show under particular interleavings or call histories.",
 [L,B,F],
 [("all methods take a shared reference and use call-local buffers","src/loader/mod.rs AsepriteFile")],
 [("loaded sprite","immutable after load","src/loader/mod.rs AsepriteFile")],
 ["AsepriteFile::{render_frame,load_image,combined_frame_image,select_layers,select_layers_by_name,layers,frames,tags,slices}"])
prop("C09","Target buffers: size contract, untouched bytes, failed calls can be retried",
 "A decode or render into a buffer smaller than the image or canvas needs (width x height x 4 bytes) returns the buffer-too-small error and leaves the buffer untouched; with a large enough buffer it never returns that error and bytes past the needed size are left untouched. Rendering leaves every canvas pixel not covered by a drawn cel unchanged. After any failed call, repeating it with an adequate buffer gives the same result as if the failed call had never happened.",
 ["fault_sequences","histories","inputs"],
 "every buffer length from empty to oversized, every previous content, every failing-then-retried call sequence, for every sprite, frame and image",
 "Tests always pass exactly sized fresh buffers; no short, oversized or dirty buffer is ever used.",
 [L],
 [("size checks before any write","src/loader/mod.rs render_frame, load_image"),("clipping to canvas","src/loader/mod.rs render_frame")],
 (),["AsepriteFile::load_image","AsepriteFile::render_frame","AsepriteFile::combined_frame_image"])
prop("C10","Frame hashes are stable and identify the frame's picture",
 "The hash returned with a combined frame image depends only on the loaded bytes and the frame: it is the same on every call, in every thread, after reloading the bytes, and in every process whatever the process's random seeds and addresses. Two frames of a sprite built from the same images at the same places on the same layers (linked cels) get the same hash, two frames with different images or positions get different hashes, and the accompanying picture equals the one rendering the visible layers gives.",
 ["schedules","histories","configurations"],
 "every reload, thread, process randomness and interleaving; every pair of frames of every generated sprite",
 "No test calls the hashing method; randomness seeding differs per process, which a test in one process cannot vary.",
 [L],
 [("fixed-key hashing of the frame's cels","src/loader/mod.rs combined_frame_image"),("image identity across linked cels","src/loader/mod.rs load")],
 (),["AsepriteFile::combined_frame_image"])
prop("C11","Work and memory stay bounded by what is stored",
 "Loading a file, however damaged its counts and sizes are, finishes within a number of steps and an amount of memory that grow at most linearly with the file's length (plus one table entry per frame and layer). Decoding and rendering need work and memory bounded by the pixels the stored data can actually expand to, not by what a damaged size field claims.",
 ["fault_sequences","inputs"],
 "every storage fault on length, count and dimension fields of every saved sprite, from tiny to large files",
 "Tests load small well-formed files without measuring steps or allocation; damaged counts never occur.",
 [L,F,FR,CH,C+"user_data.rs",C+"palette.rs",C+"tags.rs",C+"slice.rs",C+"external_files.rs"],
 [("counted parsing with capped preallocation","src/binary/** (nom count)"),("scratch buffers sized from the cel","src/loader/mod.rs render_frame, load_image")],
 (),["AsepriteFile::load","AsepriteFile::render_frame","AsepriteFile::load_image"])
prop("C12","Files from newer and older editor versions load as the known part of them",
 "When the writer is a different version from the reader, everything the reader knows is read as if the unknown were absent: chunks of unknown type are skipped wherever they stand, extra bytes at the end of known chunks, non-zero reserved bytes and flag bits without a meaning yet are ignored, and unknown codes for blend mode, layer kind, tag direction, external file kind or colour profile are reported as that unknown code. Both the old and the new chunk counter are understood, and layer opacity counts as fully opaque when the file says layer opacities are not valid.",
 ["histories","configurations","inputs"],
 "every mix of writer versions over a document's save history; unknown chunks, extensions and reserved bytes at every place",
 "Fixtures were written by one editor version each; tests assert nothing about unknown chunks, extended chunks or reserved bytes.",
 [CH,"src/binary/chunk_type.rs",FR,F,L,"src/binary/header.rs","src/binary/blend_mode.rs",C+"layer.rs",C+"tags.rs",C+"external_files.rs",C+"color_profile.rs"],
 [("size-delimited chunks and frames","src/binary/chunk.rs parse_chunk, src/binary/raw_frame.rs parse_rawframe"),("unknown kinds preserved","src/binary/chunk_type.rs, enum conversions")],
 (),["AsepriteFile::load","binary::raw_file::parse_raw_file"])
prop("C13","Every stored chunk reads back at the binary level",
 "The low-level parsers report every chunk of a completely stored save, in order and with every field exactly as written: header, palettes old and new, layers, all kinds of cels, cel extras, colour profiles, external files, masks, tags, slices, tilesets and user data with nested properties of every type. This holds after any history of earlier saves, torn reads and rejected files.",
 ["histories","crash_points","inputs"],
 "every document (all chunk kinds, all property types, nesting) over every save/crash history, read whenever a complete save is stored",
 "Tests touch a few fields of four chunk kinds; tilesets, masks, external files, ICC profiles, cel extras, old palettes and user-data properties are never compared.",
 [RF,FR,CH,"src/binary/header.rs","src/binary/scalars.rs"]+[C+x for x in ("cel.rs","cel_extra.rs","color_profile.rs","external_files.rs","layer.rs","mask.rs","old_palette.rs","palette.rs","slice.rs","tags.rs","tileset.rs","user_data.rs")],
 [("per-chunk parsers","src/binary/chunks/*.rs")],
 (),["binary::raw_file::parse_raw_file","binary::file::parse_file"])
prop("C14","Layer selections mean what they say, for as long as they are kept",
 "A selection made by predicate or by names selects exactly the layers for which the predicate holds or whose name is listed; rendering with it draws exactly those non-group layers whether or not they are marked visible, 'visible' draws exactly the layers marked visible and 'all' draws every layer. A kept selection can be reused for any frame, thread and later version of the sprite: it applies by layer position, layers beyond its length are not drawn and surplus entries are ignored.",
 ["histories","schedules","inputs"],
 "every selection kept across frames, threads and hot reloads that add or remove layers",
 "Two tests render one fixture with an empty and a one-name selection and only check blank / not equal.",
 [L],
 [("selection lookup","src/loader/mod.rs LayerSelection::is_selected"),("selection construction","src/loader/mod.rs select_layers, select_layers_by_name")],
 (),["AsepriteFile::select_layers","AsepriteFile::select_layers_by_name","AsepriteFile::render_frame"])
prop("C15","Blend arithmetic matches Aseprite for every operand",
 "For every blend mode, every backdrop colour, source colour and opacity, blending one pixel gives Aseprite's result.",
 ["inputs"],"all 19 modes x 2^72 operands",
 "No test of the blend module exists, and the operand space cannot be sampled exhaustively by examples.",
 [B],[("blend functions",B)],(),["AsepriteFile::render_frame"])
prop("C16","Parsing is zero-copy",
 "Names and image data of a parsed file borrow from the caller's bytes; parsing never copies or alters them.",
 ["inputs"],"all inputs","A type-level/aliasing fact, not observable through the examples in the tests.",
 ["src/binary/image.rs",C+"cel.rs",C+"layer.rs"],[("borrowed slices","src/binary/**")],(),["binary::file::parse_file"])
prop("C17","Scalar readers decode every bit pattern little-endian",
 "The public scalar readers return the little-endian value of their bytes and the rest of the input for every bit pattern, and an error when too few bytes remain.",
 ["inputs"],"all byte strings","Only indirectly exercised by fixtures.",
 ["src/binary/scalars.rs"],[("scalar readers","src/binary/scalars.rs")],(),["binary::scalars::*"])
prop("C18","Loading and dropping sprites leaves nothing behind",
 "A program can load, use and drop sprites for as long as it runs. Whatever it loads (ever new versions, cut and damaged files that are rejected) and whichever calls succeed, fail or unwind from a panicking predicate, the memory the library still holds once the sprites are dropped does not grow with the number of sprites loaded, and the memory it holds for a kept sprite does not grow with the number of calls made.",
 ["histories","inputs"],
 "unbounded histories of loads, calls, failures and drops (hot reload of a long-running program)",
 "A test loads a handful of files once and never looks at memory; a leak needs repetition, often of a failing path, to show.",
 [L],
 [("owned data of a loaded sprite","src/loader/mod.rs AsepriteFile::load"),("temporary buffers","src/loader/mod.rs render_frame, load_image, decompress")],
 (),["AsepriteFile::load","AsepriteFile::render_frame","AsepriteFile::load_image","AsepriteFile::select_layers"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
