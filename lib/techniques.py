AI = "abstract interpretation of the library's typed AST (values, branches and calls are followed in an abstract domain; nothing is executed, no solver)"
T["C01"] = (AI + " with the outcome of every failing step forced", "other", "one obligation per call site of an error-reporting function reachable from the load entry points; sound w.r.t. the interpreter's models of simdjson and the standard library")
T["C05"] = (AI + " with the value of every enumerated property forced, plus static_assert witnesses on the constexpr tables", "other", "every text/number of every enumerated property in spec/enums.txt and all constexpr conversion tables")
T["C19"] = (AI + " with typestate of descriptors, streams, mappings and allocations and a linear domain over their sizes", "other", "every constructor, move operation, destructor and read function of every class derived from GltfDataGetter with every OS call failing or not, and the external-file loaders; the Windows and Android code is not compiled here; two known findings (GltfFileStream cannot report short reads)")
T["C21"] = ("compile-time witnesses (static_assert) over every element-type trait and constexpr table, compiled from the current headers", "other", "exhaustive over the supported element types of fastgltf::math, glm and DirectXMath (stand-in headers)")
T["C25"] = ("type checking of every translation unit, header and the module over the configuration matrix", "other", "quick: covering subset of the option matrix; thorough: the full matrix on two compilers and four further targets")
T["C08"] = (AI + " with each extension disabled in turn and with forced extensionsRequired entries", "other", "every (parse unit, extension) pair whose data the unit reads, every supported extension name plus unknown names")
T["C12"] = (AI + " of validate() with one index member out of range at a time", "other", "every index member of the asset (spec/indices.txt, 60+), in one arbitrary element of each collection on its path")
T["C13"] = (AI + " with one integer of the document at a time larger than every bound", "other", "every integer property the parse units read and every integer member used by later loading steps; container lengths and floating-point numbers are not covered; C18 covers the GLB header")
PDA = "abstract interpretation of the exporter's typed AST into a push-down JSON automaton with per-function summaries"
T["C06"] = (PDA + "; the pretty printer is interpreted as a transducer over character classes", "other", "all optional members, variant alternatives and collection sizes (position abstraction) of writeJson and every write function; numbers are assumed finite; nesting of the pretty printer up to 3")
T["C07"] = (PDA + " that tracks which text between quotes is escaped; escapeString interpreted as a transducer over all 256 characters", "other", "every piece of text the exporter appends; every character in every position")
T["C04"] = (AI + " of the exporter with one member at a time forced to a value the parser does not assume", "other", "every row of spec/mapping.txt that names a member (600 member/location/component obligations); enumerations are covered by C05, data sources (buffer and image URIs) by C24")
T["C10"] = (AI + " of every parse unit and of the exporter, observing the arguments of the indirect calls", "other", "every call of the extras callbacks in every collection's parse function and write function; the index is compared as a linear position in the collection")
T["C09"] = (AI + " of Parser::parse with the category mask in a known-bits domain", "other", "every category x every category it refers to (closure of spec/indices.txt), every mask that needs nothing of a category, every named mask; masks that combine category bits with bits that are no category are covered only through the named enumerators (All, OnlyRenderable)")
T["C16"] = (AI + " of the load entry points with known bits of the options and forced URI predicates; call graph query for the writers", "other", "every file operation reachable from the units of $.buffers and $.images, for each setting of the option bit and each answer of isDataUri/isLocalPath/valid; the directory and name of every opened file; arguments stored by each load entry point; every function that can write a file")
T["C17"] = (AI + " with typestate of the user's buffer callbacks", "other", "every path of the three loaders that ask for memory (data URI, external file, GLB chunk): null check, user pointer, size, order of write and unmap, delivery with the custom id, fallback to library memory, user decoder")
T["C18"] = (AI + " in a linear integer domain over data size, container fields and bytes consumed/emitted", "other", "reader: every read and every state in which the document is parsed, plus well-formed and malformed containers at the limits; writer: JSON text of 4K+r bytes, buffer of 4M+q bytes for all K, M and (thorough: all) residues, every alternative of the first buffer's data source")
T["C24"] = (AI + " with typestate of the output streams and a balance of elements visited and paths recorded", "other", "both export entry points, the buffer and image writers for every data alternative and position (first or later), and both file writers with every file operation failing or not; contents of the operating system's files themselves are outside")
T["C11"] = ("interprocedural must-assign dataflow over the entry points of Parser, Exporter and FileExporter; effect analysis of members and static storage", "other", "every member a run changes x every entry point: assigned on every path before its first read; members set through setters changed by no run; data source reset before it is read; no static object or first-call cache changed by anything a run reaches. What the user's callbacks, simdjson and pointers kept by the user do between runs is outside of the analysis")
T["C23"] = ("effect analysis of static storage (aliases, non-const references, call arguments) over every function of the library; call graph query for process-wide functions", "other", "every object with static storage in library, headers and the compiled part of simdjson's interface: constant, or only initialised once with values that depend on no argument; no process-wide state (locale, environment, working directory, rand, strtok) used; user pointers only passed on. Races on objects the user shares between threads are outside of the property")
T["C14"] = (AI + " with a linear integer domain over text offsets and lengths (Fourier-Motzkin), loop bounds by Houdini and a ranking term",
            "other", "every constructor, assignment and accessor of URIView and URI for every text; path strings handed to std::filesystem are not analysed")
T["C15"] = (AI + " of every copy and move constructor and assignment with symbolic members (which member of the source each member comes from), URIs in the linear text domain",
            "other", "all non-template classes of the library; SmallVector and StaticVector belong to C22; Windows-only members are not compiled here")
T["C26"] = (AI + " with a linear integer domain over text and output sizes, a marker typestate, and a bit-provenance domain for the decoded bytes",
            "other", "decodeDataUri on every path and every decoder for every length 4n and padding 0..2 (texts up to 4 GiB: the portable decoder counts in 32 bits); the lanes computed by the SIMD decoders are C29; NEON is not compiled here")
T["C22"] = (AI + " with a linear integer domain over sizes and capacities and a typestate per piece of memory (allocated length, allocator, number of live elements)",
            "other", "every public member function x every shape of object (own storage, block; the other object; self) x element kinds (trivially copyable, moved without throwing, copied on growth), sizes arbitrary; element constructors that throw and arguments that refer to the vector's own elements are outside of the analysis")
