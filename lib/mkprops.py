import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    P.append(d)
F="src/fastgltf.cpp"; C="include/fastgltf/core.hpp"; T="include/fastgltf/types.hpp"; O="include/fastgltf/tools.hpp"; IO="src/io.cpp"; B="src/base64.cpp"

p("C01","A failed loading step always fails the load",
 "When any step of loading an asset (parsing a nested glTF object, generating indices, decoding a data URI, reading an external file) reports an error, the load call returns an error; it never returns an asset as if the step had succeeded.",
 ["inputs","fault_sequences"],"every glTF/GLB input and every step of the load that can fail, in every combination of enabled extensions, categories and options",
 "The stable tests load a handful of well-formed snippets; almost no failing step inside a nested object or resource load is ever reached.",
 [F,C],[("Error / Expected return values of Parser::parse*, decodeDataUri, loadFileFromUri, parseTextureInfo, getJsonArray","src/fastgltf.cpp")],observe=["Parser::loadGltf*"])
p("C02","Required properties and property types are enforced while parsing",
 "A document in which a property that glTF 2.0 (or an enabled extension) requires is missing, or in which a property has the wrong JSON type, is rejected with an error; a document that merely leaves out an optional property is never rejected for that.",
 ["inputs"],"every JSON document, for every property the parser reads",
 "There are several hundred (property, missing / wrong type) combinations; tests feed a few invalid files.",
 [F],[("simdjson error code discipline: SUCCESS / NO_SUCH_FIELD / other after each ['key'].get_*()","src/fastgltf.cpp parse*")],observe=["Parser::loadGltf*"])
p("C03","Each JSON property is loaded into its own asset member",
 "Every property of a loaded document ends up in the asset member that represents it (accessor byteOffset in the accessor's byte offset, camera ymag in ymag, and so on), and in no other member; a property that is absent leaves the member at the default that glTF defines for it.",
 ["inputs"],"every document and every property the parser understands",
 "Tests compare a few members of a few sample files; most members (extensions, physics, cameras, samplers) are never compared with the JSON they came from.",
 [F,T],[("Parser::parse* assignments from JSON values to members","src/fastgltf.cpp"),("default member initialisers","include/fastgltf/types.hpp")],observe=["Asset"])
p("C04","Exporter and parser agree on every property",
 "Everything the exporter writes is written at the JSON location, under the key and in the JSON type from which the parser reads that same asset member, so that exporting an asset and loading the result gives back the members; a member is left out of the output only when its value is the one the parser assumes for an absent property.",
 ["inputs"],"every asset that can be exported and every member of it",
 "The write tests re-read a handful of models and mostly check only that reading succeeds; the extension objects are not covered at all by the stable tests.",
 [F,T],[("Exporter::write* and Parser::parse* pairs","src/fastgltf.cpp")],observe=["Exporter::writeGltfJson","Parser::loadGltfJson"])
p("C05","Enumerated values map to the same names in both directions",
 "For every enumerated value (animation path and interpolation, alpha mode, light type, accessor and component types, meshopt modes and filters, mime types, physics combine/drive modes, primitive modes, extension names, error names) the text or number the library writes for it is the one glTF defines, and reading that text or number gives the same value back.",
 ["inputs","configurations"],"every enumerator of every enum that crosses the JSON boundary",
 "Tests touch only a few enumerators; a swapped pair in one table passes them all.",
 [F,T,C],[("switches over crc32c(\"...\") in the parser, switches over enums in the exporter, constexpr tables in types.hpp/core.hpp","src/fastgltf.cpp, include/fastgltf/types.hpp, include/fastgltf/core.hpp")])
p("C06","The exporter always produces well-formed JSON",
 "For every asset, whichever optional members are set and however many elements its collections have, the exported JSON text is syntactically well-formed: brackets and quotes balance, members and elements are separated by exactly one comma, every member has one key and one value, and no object repeats a key.",
 ["inputs"],"all assets: every combination of present/absent optional members and empty/non-empty collections",
 "The number of member combinations is exponential; tests export a few models without most extensions.",
 [F],[("comma and bracket logic in Exporter::write*","src/fastgltf.cpp")],observe=["Exporter::writeGltfJson output"])
p("C07","User-provided text cannot break out of the exported JSON strings",
 "Every string of an asset (names, attribute names, URIs, extension names, variant names, copyright text and so on) that the exporter emits is JSON-escaped before it is placed between quotes, and the escaping covers every character JSON requires to be escaped, wherever in the string it occurs.",
 ["inputs"],"all strings a user can put into an asset",
 "One test escapes one short string; no test exports names containing quotes, backslashes or control characters in each of the emitted positions.",
 [F],[("fg::escapeString","src/fastgltf.cpp"),("Exporter::write*","src/fastgltf.cpp")],observe=["Exporter::writeGltfJson output"])
p("C08","Extension data is only interpreted when its extension is enabled",
 "Data of a glTF extension reaches the asset only if that extension was enabled in the parser, every extension the parser supports is listed with its own distinct flag and its exact glTF name, and a document that requires an extension that is unsupported or not enabled is rejected.",
 ["inputs","configurations"],"every subset of extensions enabled and every document using any extension",
 "2^31 extension masks; tests enable the one extension they look at.",
 [F,C],[("hasBit(config.extensions, Extensions::X) guards; extensionStrings; extensionsRequired check in Parser::parse","src/fastgltf.cpp, include/fastgltf/core.hpp")])
p("C09","Requested categories, and everything they refer to, are what gets loaded",
 "Loading with a category mask parses exactly the requested categories together with every category they index into, so the loaded part of the asset has no reference into an unloaded collection (the target nodes of animation channels excepted, which Category::OnlyAnimations deliberately leaves out; collections that live in extensions are loaded with every mask), and the asset reports a category as available exactly when it was parsed.",
 ["inputs","configurations"],"all category masks",
 "Tests use two or three masks.",
 [F,T],[("Parser::fillCategories, KEY_SWITCH_CASE in Parser::parse","src/fastgltf.cpp")],observe=["Asset::availableCategories"])
p("C10","Extras callbacks identify the object they belong to",
 "Whenever the extras parse or write callback is invoked, the category and index it receives are those of the object whose extras are being read or written, and the user pointer is the one that was set.",
 ["inputs"],"every object of every category that carries extras, at every index",
 "One test looks at one category.",
 [F],[("config.extrasCallback(...) / extrasWriteCallback(...) call sites","src/fastgltf.cpp")])
p("C11","Reusing a parser or exporter does not leak state between runs",
 "The result of a load or export depends only on its arguments and on the configuration set through the setters, not on earlier loads or exports made with the same object, whether they succeeded or failed.",
 ["histories"],"all sequences of load / export calls on one Parser or Exporter",
 "Tests use fresh objects or repeat the same kind of call.",
 [F,C],[("assignments at the start of Parser::loadGltf*, Exporter::writeGltf*","src/fastgltf.cpp")],state=[("glbBuffer, directory, options","per-load parser state","include/fastgltf/core.hpp"),("errorCode, bufferPaths, imagePaths, options, exportingBinary","per-export state","include/fastgltf/core.hpp")])
p("C12","validate() accepts only assets whose references are in bounds",
 "If validate() reports no error, every index stored anywhere in the asset (accessor to buffer view, primitive to accessor and material, node to mesh, skin, camera, light and child, animation to sampler, node and accessor, texture to image and sampler, scene to node, and so on) refers to an existing element of the collection it indexes; validate() itself never indexes out of bounds.",
 ["inputs"],"all assets, i.e. every index member at every position of every collection",
 "The tests call validate() only on valid sample files.",
 [F],[("fg::validate","src/fastgltf.cpp")],observe=["fastgltf::validate"])
p("C13","Numbers from the file never drive unchecked memory access or enum values",
 "A number taken from the document is used by the library as an index into a collection, as an allocation size derived by arithmetic, or as an enumerator on which the library later dispatches only after it has been checked to be in range; out-of-range numbers lead to an error.",
 ["inputs"],"all numbers in all documents",
 "Tests contain only in-range numbers.",
 [F],[("Parser::generateMeshIndices, parsePrimitiveExtensions, parseMeshes, parseAccessors","src/fastgltf.cpp")])
p("C14","URI parsing is total",
 "Constructing or assigning a URI from any string terminates normally without throwing or reading outside the string, and every component it reports (scheme, user info, host, port, path, query, fragment) is a part of that string.",
 ["inputs"],"all byte strings given as a URI",
 "Tests use about a dozen well-formed URIs.",
 [F],[("URIView::parse, URI::decodePercents","src/fastgltf.cpp")])
p("C15","Copying and moving values transfers every part",
 "Copying, moving or assigning a URI, URI view, asset, parser, memory-mapped file or accessor bounds array gives an object equal to the source in every component; nothing from the destination's earlier value survives, views inside a copied URI refer to the copy's own text, and a moved-from owner no longer owns the resource.",
 ["histories","inputs"],"all sequences of copy/move/assign over these types",
 "Tests copy and move one URI with a path only.",
 [F,T,C,IO],[("special member functions of URI, URIView, Asset, Parser, MappedGltfFile, AccessorBoundsArray","include/fastgltf/types.hpp, src/fastgltf.cpp, src/io.cpp")])
p("C16","External files are only touched when asked for and only through local URIs",
 "While loading, the parser opens a file named by the document only if the option to load external buffers (for buffers) or external images (for images) is set and the URI is a valid local path, and the file is looked up in the directory given to the load; otherwise the asset holds the URI untouched. Files named by the asset are written only by the file exporter.",
 ["inputs","configurations"],"all documents and all option sets",
 "Tests cannot show the absence of file accesses for all other documents and options.",
 [F,IO],[("Parser::loadFileFromUri guards in parseBuffers/parseImages","src/fastgltf.cpp"),("FileExporter","src/fastgltf.cpp")])
p("C17","Buffer allocation callbacks are paired and failure-tolerant",
 "Each loader that asks the user for memory through the map callback (GLB chunk, data URI, external file) checks the returned pointer, writes the data there, calls the unmap callback (if set) after the data was written and stores the returned custom id as the data source; when no memory is returned the data is still delivered in library-owned memory. A user-set base64 decoder is used for every data URI.",
 ["inputs","configurations"],"all documents, all combinations of set/unset callbacks and null/non-null results",
 "One test uses one callback combination.",
 [F,IO],[("config.mapCallback / unmapCallback / decodeCallback uses","src/fastgltf.cpp, src/io.cpp")])
p("C18","GLB containers are bounds- and magic-checked before use",
 "The parser reads a GLB header and chunk only after checking magic, version, chunk type and that each declared length fits in the data that was actually provided, and reports an error otherwise; the exporter writes a header and chunk lengths that equal the bytes it emits, each chunk padded to four bytes.",
 ["inputs"],"all byte strings given as a GLB; all exported assets",
 "Tests load one or two valid GLBs.",
 [F],[("Parser::loadGltfBinary, Exporter::writeGltfBinary","src/fastgltf.cpp")])
p("C19","Data sources release their resources and report read failures",
 "Every file handle, descriptor and mapping a data source or loader opens is released on every path, a file that cannot be opened, stat-ed, mapped or completely read is reported as an error instead of being handed out as data, and no data source reads beyond its size.",
 ["fault_sequences","inputs"],"all failures of the operating system calls involved and all read sequences",
 "Tests cannot inject failures of open/fstat/mmap/read.",
 [IO,F],[("GltfDataBuffer, MappedGltfFile, GltfFileStream, Parser::loadFileFromUri","src/io.cpp")])
p("C20","All accessor tools interpret accessor data the same way",
 "Random access, range iteration, functor iteration and bulk copying of an accessor all apply the same rules: accessor byte offset and buffer view stride, component conversion with the accessor's normalisation flag, sparse substitution with the sparse offsets, and zeros when there is no buffer view.",
 ["inputs"],"all accessors (component type, normalisation, stride, offset, sparse, missing buffer view) and all element types",
 "The combinations of tool x accessor feature are not covered; most combinations need sample assets that the stable tests do not have.",
 [O],[("getAccessorElement, iterateAccessor, IterableAccessor/AccessorIterator, copyFromAccessor, copyComponentsFromAccessor","include/fastgltf/tools.hpp")])
p("C21","Element type traits match the types they describe",
 "For every element type the library or its glm/math adapters support, the declared accessor type and component type describe the in-memory layout of that type: component count and component type agree with the type, and component sizes, GL constants and row counts agree with glTF.",
 ["programs","configurations"],"all supported element types, in all supported build configurations",
 "Tests instantiate a few element types only.",
 [O,T,"include/fastgltf/glm_element_traits.hpp"],[("ElementTraits specialisations, getNumComponents, getElementByteSize, getComponentByteSize","include/fastgltf/tools.hpp, include/fastgltf/types.hpp")])
p("C22","SmallVector keeps its storage, capacity and ownership consistent",
 "After any sequence of operations a SmallVector's data pointer, capacity and size describe storage it owns: inline storage is never claimed to hold more than its fixed number of elements, heap storage is released exactly once with the capacity it was allocated with, and an object that was moved from or cleared remains usable. Elements are constructed and destroyed exactly once, and the size afterwards is the one the operation promises.",
 ["histories"],"all operation sequences on SmallVector with all element types",
 "Tests run a few short operation sequences with trivially copyable elements and no leak detection.",
 [T],[("SmallVector special members, reserve, shrink_to_fit, clear","include/fastgltf/types.hpp")],state=[("_data/_capacity/_size","storage pointer, element capacity, size","include/fastgltf/types.hpp")])
p("C23","Independent parsers and exporters share no mutable state",
 "Library calls on different objects never communicate through shared mutable state: there is no writable global or static data other than values initialised exactly once under synchronisation, and callbacks receive only the user pointer of their own object.",
 ["schedules"],"all interleavings of calls on distinct objects from different threads",
 "Data races need particular schedules; tests are single-threaded.",
 [F,IO,B],[("std::call_once(crcInitialisation), const tables, static decoder selection","src/fastgltf.cpp, src/base64.cpp")])
p("C24","The exporter reports every failure",
 "If validation was requested and fails, or a buffer, image or the main file cannot be written completely, the export returns an error; and a successful export gives exactly one path entry per buffer and per image, in order, empty only for data that is not stored in its own file.",
 ["inputs","fault_sequences"],"all assets, export options and I/O failures",
 "Tests export to a writable directory only.",
 [F,IO],[("Exporter::writeGltfJson/Binary, FileExporter","src/fastgltf.cpp")])
p("C25","Every supported build configuration compiles",
 "The library's sources and each public header on its own compile without errors in every supported configuration: C++17 to C++23, with and without the custom memory pool, custom SmallVector, 64-bit floats, and each optional extension.",
 ["configurations"],"all combinations of documented configuration switches",
 "The test build uses exactly one configuration.",
 ["CMakeLists.txt",C,T,O,F],[("FASTGLTF_* macros","include/fastgltf/*.hpp")])
p("C26","Base64 input is checked before it is decoded",
 "A data URI is decoded only if it is marked base64, has a payload whose length is a positive multiple of four, and the output allocated for it is exactly the decoded size; the decoder maps each of the 64 alphabet characters to its value, accesses its tables only in bounds for every byte value, and all decoder variants implement the same interface contract.",
 ["inputs"],"all payloads",
 "Tests decode valid payloads only.",
 [F,B,"include/fastgltf/base64.hpp"],[("Parser::decodeDataUri, base64::decode*, getOutputSize, getPadding","src/fastgltf.cpp, src/base64.cpp")])
# not decided statically
p("C27","Loading an exported asset reproduces its numeric values exactly",
 "Exporting an asset and loading the result reproduces every floating point and integer value bit-exactly.",
 ["inputs"],"all finite numeric values","Tests compare a few sample values.",
 [F],[("std::to_chars / fmt of numbers, simdjson number parsing","src/fastgltf.cpp")])
p("C28","Matrix decomposition and transform composition are mathematically consistent",
 "Decomposing an affine node matrix into translation, rotation and scale and composing it again yields the same transform up to rounding, and iterating a scene visits each node with the product of its ancestors' transforms.",
 ["inputs"],"all node matrices and hierarchies","Tests compare a few matrices.",
 ["include/fastgltf/math.hpp",O],[("math::decomposeTransformMatrix, iterateSceneNodes","include/fastgltf/math.hpp, include/fastgltf/tools.hpp")])
p("C29","SIMD variants compute the same result as the portable code",
 "For every input the SSE4, AVX2 and NEON base64 decoders and the hardware CRC32-C compute the same bytes as the portable implementations.",
 ["inputs","configurations"],"all inputs on all CPUs","Tests compare a few buffers.",
 [B,"include/fastgltf/util.hpp"],[("sse4_decode_inplace, avx2_decode_inplace, sse_crc32c","src/base64.cpp, src/fastgltf.cpp")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
