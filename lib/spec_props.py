JIT_FILES = "src/compile.cpp src/codegen/compiler.cpp src/codegen/target/x86/operations.cpp src/codegen/target/x86/assembler.cpp"

prop("C01", "Compiled arithmetic, conversions and control flow follow the JVM specification",
     """A verifiable method made of local variable, stack, arithmetic, conversion, comparison, switch and loop
     instructions over int, long, float and double, and of static calls, prints and returns under the JIT compiler
     exactly the values the Java virtual machine specification gives for it. This includes shift counts, overflow, division
     of extremes, NaN ordering, float-to-integer saturation, wide operands and every kind of conditional branch.""",
     "programs inputs", "all generated methods of bounded size (up to a few hundred instructions), all constants, in the optimised, debug and GC-stress builds",
     "the repository's tests execute a few dozen fixed methods; a miscompiled combination of instructions, register pressure or constants appears only for particular programs",
     JIT_FILES + " src/avian/arch.h src/compile-x86_64.S", [("instruction selection and register allocation", "src/codegen/compiler.cpp"), ("bytecode translation", "src/compile.cpp")],
     "generated class files; differential against HotSpot", DIFF + "; trusts HotSpot and the ASM library it ships")

prop("C02", "Exceptions reach the right handler with the right state and stack trace",
     """Whatever mix of explicit throws, implicit traps (null dereference, division by zero, array index and size, class cast),
     nested handlers, finally-like code and monitors a method contains, control reaches the handler the Java virtual machine specification designates, with the
     locals, fields and monitors as they were at the throwing instruction. The exception's class and the
     method names and line numbers of its stack trace are those of the frames it passed.""",
     "programs inputs", "all generated programs with nested try/catch/finally regions and throwing instructions at arbitrary points, several frames deep",
     "unit tests throw from a handful of fixed sites; which locals live in registers at a trap and which handler covers it depends on the program",
     "src/compile.cpp src/machine.cpp src/codegen/compiler.cpp src/system/posix/signal.cpp classpath/java/lang/Throwable.java",
     [("handler lookup and unwinding", "src/compile.cpp"), ("traps from hardware faults", "src/system/posix/signal.cpp"), ("line numbers", "src/machine.cpp")],
     "generated class files; differential against HotSpot", DIFF + "; implicit traps are generated so that their results are used at once (see known findings)")

prop("C03", "Objects, fields, arrays, dispatch and type checks follow the JVM specification",
     """Field and array accesses of every type (including narrowing, sign and zero extension), static, special, virtual and interface dispatch through
     generated class hierarchies, instanceof, checkcast and class literals give what the Java virtual machine specification defines.
     This holds for any hierarchy of classes and interfaces, any order of first use, and any argument types and count.""",
     "programs inputs", "all generated hierarchies (classes, abstract classes, interfaces, overrides, arrays of them) and operation sequences over them",
     "tests use a few fixed hierarchies; vtable and interface table layout, argument passing and type tests depend on the generated shape",
     "src/compile.cpp src/machine.cpp src/interpret.cpp src/avian/machine.h",
     [("vtables and interface tables", "src/machine.cpp"), ("field layout", "src/machine.cpp"), ("dispatch code", "src/compile.cpp")],
     "generated class files; differential against HotSpot", DIFF)

prop("C04", "Symbolic references are resolved when executed, and fail with the right error",
     """Code which names classes, fields and methods that are missing, appear only later, are abstract, or are static where an instance member is expected (or the reverse) runs as long as the instruction naming them is not executed,
     and on execution gives the value the member has by then or throws the linkage error the specification names (NoClassDefFoundError, NoSuchFieldError, NoSuchMethodError, IncompatibleClassChangeError, AbstractMethodError, InstantiationError), in any order of uses.""",
     "inputs histories", "all generated sets of classes, some missing or coming later, and histories of uses of them by every instruction with a symbolic reference, in all configurations and with a collection at every allocation",
     "tests are compiled together with the classes they use, so every reference in them resolves and the unresolved paths of the compiler are not taken",
     "src/compile.cpp src/interpret.cpp src/avian/machine.h src/machine.cpp",
     [("unresolved references in compiled code", "src/compile.cpp"), ("resolution", "src/avian/machine.h")],
     "generated class files and histories of uses compared with HotSpot", DIFF)

prop("C05", "The interpreter agrees with the JIT compiler and the specification",
     """A virtual machine built with the interpreter runs every program with the same output, exceptions and stack traces as the compiled
     one and as the Java virtual machine specification defines, for arithmetic, control flow, exceptions, object
     and dispatch programs alike.""",
     "programs inputs configurations", "all generated programs of the families of C01, C02 and C03, on process=interpret builds",
     "the interpreter has a separate implementation of every instruction and of exception dispatch; tests run fixed programs on it",
     "src/interpret.cpp src/machine.cpp src/avian/machine.h", [("bytecode loop", "src/interpret.cpp")],
     "generated class files; differential against HotSpot", DIFF)

prop("C17", "Every call selects the overriding or default method the specification says",
     """In any hierarchy of classes and interfaces in any packages, each virtual, interface and super call runs the method which overrides the named one in the class of the receiver: that of the nearest class first, else the most specific default
     method of all superinterfaces, where package-private methods are overridden only within their package, conflicting default methods and abstract ones cannot be called, and the declaration order and the order of loading play no part.""",
     "inputs", "all generated hierarchies of up to 13 types in two packages with seven methods each, and generated calls and super calls among them",
     "tests have a few fixed hierarchies; which method wins depends on the whole hierarchy",
     "src/machine.cpp src/compile.cpp src/interpret.cpp src/avian/machine.h src/avian/process.h",
     [("method tables", "src/machine.cpp"), ("selection of interface methods", "src/avian/machine.h"), ("super calls", "src/avian/process.h")],
     "generated class hierarchies and calls compared with HotSpot", DIFF)

prop("C20", "Strings and character encodings follow the Java API",
     """String, StringBuilder, StringBuffer and Character operations (search, comparison, substrings, case, trimming, replacement, editing, code points, splitting, interning, hash codes)
     return what the Java API defines for every string, including empty and supplementary-character ones and indices out of range.
     Encoding to UTF-8, ISO-8859-1 and US-ASCII and decoding give the standard bytes and characters, and malformed input never crashes the virtual machine.""",
     "inputs histories", "all strings and operation sequences generated (ASCII, Latin-1, BMP, supplementary; lengths 0 to a few hundred), all indices",
     "tests check a few literal strings",
     "classpath/java/lang/String.java classpath/java/lang/StringBuilder.java classpath/java/lang/StringBuffer.java classpath/java/lang/Character.java classpath/avian/Utf8.java classpath/avian/Iso88591.java src/machine.cpp",
     [("string storage and editing", "classpath/java/lang"), ("codecs", "classpath/avian/Utf8.java")],
     "generated operation histories; differential against OpenJDK", DIFF)

prop("C22", "Collections behave as their Java contracts say over any history of operations",
     """Lists, maps, sets, deques, queues and bit sets of java.util and java.util.concurrent return from every operation of any single-threaded history what the Java API
     defines, with the same contents, iteration order where one is defined, iterator removal and exceptions. Sorting yields an ordered permutation,
     binary search finds what is there, and seeded Random and the Arrays helpers produce the documented values.""",
     "histories inputs", "all operation histories generated (up to about 100 operations; key sets with many hash collisions, null elements)",
     "tests run a few fixed short histories per class; hash collisions, wrap-around, rebalancing and iterator removal need particular histories",
     "classpath/java/util/HashMap.java classpath/java/util/LinkedHashMap.java classpath/java/util/TreeMap.java classpath/java/util/TreeSet.java classpath/avian/PersistentSet.java classpath/java/util/ArrayList.java classpath/java/util/LinkedList.java classpath/java/util/ArrayDeque.java classpath/java/util/BitSet.java classpath/java/util/Collections.java classpath/java/util/Arrays.java classpath/java/util/concurrent/ConcurrentHashMap.java",
     [("hash tables", "classpath/java/util/HashMap.java"), ("red-black trees", "classpath/avian/PersistentSet.java")],
     "model-based operation histories; differential against OpenJDK", DIFF + "; equality and text form of collections are not compared (known finding), operations Avian documents as unsupported are not called")

prop("C15", "Compression and zip archives round-trip and match their formats",
     """Data written through Deflater, DeflaterOutputStream, GZIPOutputStream or ZipOutputStream decompresses to the same bytes with any conforming decompressor, and
     Inflater and the input streams recover the data of any valid stream, however the reads and writes are split. CRC32 and Adler32 give their standard values.
     Archives list exactly their entries with names, sizes and contents, and corrupted or truncated input is reported by an exception and never crashes.""",
     "inputs histories", "all data generated (random, repetitive, empty, up to some tens of kilobytes), all chunk sizes, levels and both wrapping modes; corrupted and truncated variants",
     "tests compress a few fixed arrays; buffer boundary conditions depend on the sizes and on how calls are split",
     "classpath/java-util-zip.cpp classpath/java/util/zip src/avian/zlib-custom.h classpath/java/util/jar",
     [("deflate and inflate natives", "classpath/java-util-zip.cpp"), ("archive reading and writing", "classpath/java/util/zip")],
     "generated data and call histories; independent inflater and zip reader as model, differential against OpenJDK", DIFF)

prop("C21", "Numbers, characters, random sequences and bit sets follow the Java API",
     """Parsing and formatting of integers in any radix, boxing, bit-twiddling helpers, comparison, hash codes, Math, BigInteger-free number classes, Random and
     BitSet return for every argument what the Java API defines, and reject what it rejects with the exception it names. Formatting then parsing any number gives the number back.""",
     "inputs histories", "all generated values biased to extremes (minimum, maximum, powers of two, NaN, infinities, subnormals) and malformed texts; operation sequences on BitSet and Random",
     "tests call these functions with a few constants",
     "classpath/java/lang/Integer.java classpath/java/lang/Long.java classpath/java/lang/Double.java classpath/java/lang/Float.java classpath/java/lang/Short.java classpath/java/lang/Byte.java classpath/java/lang/Character.java classpath/java/lang/Math.java classpath/java/util/Random.java classpath/java/util/BitSet.java classpath/java-lang.cpp",
     [("number classes", "classpath/java/lang"), ("natives", "classpath/java-lang.cpp")],
     "generated operation histories; differential against OpenJDK", DIFF + "; floating-point text is compared to six digits, transcendental functions as floats")

prop("C25", "Streams, readers, writers and files follow the java.io contracts",
     """Reading and writing through any stack of java.io streams, readers and writers delivers exactly the bytes and characters given, in order, for any
     split into calls and any buffer sizes, with mark, reset, skip, push-back, end-of-file and flush behaving as documented. Files written, appended, read at random positions, listed, renamed, created and
     deleted through File, FileInputStream, FileOutputStream and RandomAccessFile have the contents and attributes that the history of operations implies.""",
     "histories inputs", "all generated data, call splits, buffer sizes and file operation histories inside a scratch directory",
     "tests read and write a few fixed files; buffer boundaries and interactions of mark, skip and reset need particular sequences",
     "classpath/java/io classpath/java-io.cpp", [("streams", "classpath/java/io"), ("file natives", "classpath/java-io.cpp")],
     "generated operation histories; differential against OpenJDK", DIFF + "; how much a partial read returns is not compared")

prop("C26", "NIO buffers and file channels follow the java.nio contracts",
     """Heap and direct ByteBuffers and CharBuffers, with their slices, duplicates and read-only views, keep position, limit and capacity as documented through any history of operations,
     share storage exactly where they must, store multi-byte values in big-endian order, and reject overflow, underflow, bad indices and writes to read-only views
     with the documented exceptions, without changing anything. File channels read and write at the positions they should.""",
     "histories inputs", "all generated histories over several buffers that share storage, all indices including invalid ones; channel histories on scratch files",
     "tests use a few fixed sequences; errors show up only for particular offsets of views of views",
     "classpath/java/nio classpath/java-nio.cpp", [("buffers", "classpath/java/nio"), ("channels", "classpath/java/nio/channels")],
     "generated operation histories; differential against OpenJDK", DIFF)

prop("C13", "Reflection, proxies and annotations describe and operate the classes faithfully",
     """For any class, including classes defined at run time by a class loader, reflection reports its name, modifiers, superclass, interfaces, fields, methods, constructors, nested classes, annotations and generic types as they are in its class file,
     finds declared and inherited public members, and refuses what does not exist. Reflective reads, writes, calls, instantiation and array access act exactly as the corresponding code would,
     converting primitive values only by widening, rejecting wrong receivers and arguments with the documented exceptions and wrapping what the callee throws.
     Proxies pass every call and its arguments to the handler and return or throw what it does; a class loader never defines the same class twice.""",
     "inputs histories programs", "all generated class hierarchies (members of all types and modifiers) and histories of reflective operations with right and wrong arguments",
     "tests reflect on a few fixed classes and pass right arguments",
     "classpath/java/lang/Class.java classpath/java/lang/reflect classpath/avian/Classes.java src/builtin.cpp src/classpath-avian.cpp src/compile.cpp",
     [("reflective calls", "classpath/java/lang/reflect/Method.java"), ("proxy classes", "classpath/java/lang/reflect/Proxy.java"), ("annotations", "classpath/avian/Classes.java")],
     "generated classes and histories of reflective operations; differential against OpenJDK", DIFF + "; wildcard and generic array types and inherited annotations are not explored")

prop("C14", "The class path gives each class and resource from the first element which has it",
     """Classes and resources are found through a class path of directories and archives (stored or compressed entries, with or without directory entries, comments, extra fields and data descriptors,
     of any number of entries, and with elements which do not exist, are empty or are no archives) exactly as in its first element that contains them, byte for byte, or not at all; getResources lists them in class path order.
     The launcher's ways to give the class path (-cp, -classpath, java.class.path, -jar with the manifest's Main-Class and Class-Path) agree, and the program's arguments reach it unchanged.""",
     "inputs", "all generated layouts of class path elements and all generated class and resource names, present or not",
     "tests use one class path and read one resource; hash collisions, growth of the index and odd archive structures need particular layouts",
     "src/finder.cpp src/main.cpp classpath/avian/SystemClassLoader.java classpath/java/lang/ClassLoader.java",
     [("class path elements", "src/finder.cpp"), ("launcher", "src/main.cpp"), ("resources", "classpath/avian/SystemClassLoader.java")],
     "generated class path layouts and queries; differential against OpenJDK", DIFF)

prop("C11", "Threads, monitors, waiting, interruption and volatile follow the Java model",
     """For every schedule: at most one thread is inside the synchronized code of a monitor, at any recursion depth, and leaving it (normally or by an exception) publishes what was written; wait releases all recursions and takes them again,
     a notification wakes exactly one waiter and none is lost, timeouts and interruptions end waiting, sleeping and joining with the documented exception and flag, and nothing else does.
     Volatile reads and writes are totally ordered, order the ordinary accesses around them, and are atomic for long and double. Threads start once, see their own thread-local values, report their state, and end join.""",
     "schedules histories programs", "all generated sets of two to eight threads running generated scripts, with generated delays, allocations and collections between the steps",
     "tests start a few threads once; lost wake-ups, reordered accesses and recursion counts need particular interleavings",
     "src/avian/machine.h src/machine.cpp src/builtin.cpp src/compile.cpp src/system/posix.cpp classpath/java/lang/Thread.java classpath/java/lang/ThreadLocal.java",
     [("monitors", "src/avian/machine.h"), ("system monitors", "src/system/posix.cpp"), ("threads", "classpath/java/lang/Thread.java")],
     "generated multi-threaded scripts under random schedules; outcomes that do not depend on the schedule against a model and OpenJDK", "schedules are those the operating system gives with generated delays; " + DIFF)

prop("C28", "java.util.concurrent objects are linearizable and lose nothing under contention",
     """For every schedule: atomic variables lose no update and their results are those of some order of the operations; ConcurrentHashMap gives each thread its own writes, lets exactly one putIfAbsent win, loses no compare-and-replace, and its iterators see every mapping that stays;
     concurrent and blocking queues deliver each element exactly once, in order for each producer, never beyond their capacity; a FutureTask runs at most once and all who wait get its one outcome; completion services deliver each task once; park and unpark lose no permit.
     Used by one thread, all of them give the documented results and exceptions, and TimeUnit conversions saturate.""",
     "schedules histories", "all generated operation mixes of one to eight threads on one object, keys with equal and extreme hash codes",
     "tests use one thread or a fixed pattern; lost updates and lost elements need particular interleavings or hash codes",
     "classpath/java/util/concurrent src/builtin.cpp classpath/sun/misc/Unsafe.java classpath/avian/Atomic.java classpath/avian/PersistentSet.java",
     [("maps", "classpath/java/util/concurrent/ConcurrentHashMap.java"), ("queues", "classpath/java/util/concurrent/LinkedBlockingQueue.java"), ("atomics", "classpath/java/util/concurrent/atomic")],
     "generated operation mixes under random schedules; invariants of every outcome, differential against OpenJDK", "schedules are those the operating system gives; " + DIFF)

prop("C30", "Sockets carry every byte and packet, in order, to the right peer, without leaks",
     """For every history of connections over streams, channels and selectors: what one side writes is what the other reads, in order, without loss, repetition or bytes elsewhere in the buffer, however both sides split it and whichever threads wait while others collect garbage; the end of the stream is seen exactly after the last byte, once the other side is closed or shut down.
     A datagram arrives whole or cut to the buffer, with the address of its sender, empty ones included; a selector reports exactly the keys whose channels are ready for what they asked, also after channels were closed and wakeup was called; non-blocking operations never wait; whatever is closed gives its descriptor back.""",
     "histories schedules", "all generated scripts on 1 to 5 connections or 2 to 3 datagram channels over loopback, transfers of up to 200 kB by concurrent threads",
     "one test makes one connection; the rest depends on how data is split, on reused descriptors and on collections while a thread waits",
     "classpath/java-net.cpp classpath/java-nio.cpp classpath/sockets.cpp classpath/java/net/Socket.java classpath/java/nio/channels/SocketSelector.java",
     [("streams", "classpath/java/net/Socket.java"), ("channels", "classpath/java/nio/channels/SocketChannel.java"), ("datagrams", "classpath/java/nio/channels/DatagramChannel.java"), ("selectors", "classpath/java/nio/channels/SocketSelector.java")],
     "generated scripts over loopback, against a model of each stream and queue of packets and OpenJDK", "loopback only; IPv4; operations with direct buffers, on closed channels or with empty buffers to read into are left out; " + DIFF)

prop("C23", "Formatting and parsing of text, dates and properties is exact and round-trips",
     """String.format, Formatter and PrintStream.printf give the documented text for every combination of conversion, width, precision, justification, zero padding, case and argument index, and refuse a missing argument; MessageFormat fills in its arguments outside quotes.
     Dates are formatted and parsed by the proleptic Gregorian calendar, with leap years, and every formatted date reads back as the same second. Properties.load understands comments, separators, escapes and continued lines as documented,
     and what store writes loads as the same mappings, whatever characters they hold; StringTokenizer, Objects and Arrays' deep operations agree with their specification.""",
     "inputs", "all generated format strings and arguments, instants from 1583 to 9999, property files and mappings, token strings and nested arrays",
     "tests format a few values; unusual flags, century years and escapes appear only in particular inputs",
     "classpath/avian/FormatString.java classpath/java/util/Formatter.java classpath/java/text classpath/java/util/Calendar.java classpath/java/util/Properties.java classpath/java/util/StringTokenizer.java classpath/java/util/Objects.java",
     [("format strings", "classpath/avian/FormatString.java"), ("dates", "classpath/java/text/SimpleDateFormat.java"), ("properties", "classpath/java/util/Properties.java")],
     "generated format strings, dates and property files; differential against OpenJDK and round trips", DIFF)

prop("C24", "Regular expressions match, find, split and replace as documented",
     """For every supported pattern (alternation, concatenation, greedy and reluctant repetition with counts, character classes with ranges, negation, union and intersection, predefined classes, anchors, word boundaries, groups, lookahead and lookbehind)
     and every text, matches, lookingAt and find, with their positions and groups, give what java.util.regex specifies, finds go on where the last one ended, also after reset and from given positions, and split and replacement agree with them;
     malformed patterns are refused and no pattern makes matching run on without end.""",
     "inputs", "all generated supported patterns and texts made to nearly match them, all sequences of matcher operations",
     "tests try a few patterns; priorities of nested alternatives and repetitions show only for particular combinations",
     "classpath/java/util/regex classpath/java/lang/String.java",
     [("compiler", "classpath/java/util/regex/Compiler.java"), ("matching", "classpath/java/util/regex/PikeVM.java"), ("classes", "classpath/java/util/regex/CharacterMatcher.java")],
     "generated patterns with nearly matching texts and matcher histories; differential against OpenJDK", DIFF)

prop("C27", "Object streams read and write the serialization protocol faithfully",
     """ObjectInputStream rebuilds, from any stream in the serialization protocol, the object graph it describes: primitive data in blocks of any length, strings, shared and cyclic references, class chains, custom readObject methods, and fields of all types, and interleaves primitive reads and objects in order;
     a truncated or damaged stream ends in an exception. What ObjectOutputStream writes for supported objects is byte for byte a stream that any implementation reads back as an equal graph, with transient and static fields left out.""",
     "inputs histories", "all generated object graphs of the supported kinds and all generated sequences of primitive and object writes, streams cut at any point",
     "tests write a few objects; block boundaries, back references and class chains need particular graphs",
     "classpath/java/io/ObjectInputStream.java classpath/java/io/ObjectOutputStream.java",
     [("reader", "classpath/java/io/ObjectInputStream.java"), ("writer", "classpath/java/io/ObjectOutputStream.java")],
     "generated object graphs through an independent encoder, round trips and differential against OpenJDK", DIFF)

prop("C06", "A VM started from a boot image behaves as one that compiles at run time",
     """A program run on a VM whose class library was compiled and linked ahead of time into a boot image prints what it prints on a VM that loads and compiles the same library while running,
     whatever it does with the library's numbers, strings, collections, formats, reflection, class initialization, streams, serialization, threads and collected heap.""",
     "inputs histories", "all generated programs of C08, C09, C11, C13, C20 to C23, C25 and C27 run on the boot image configuration",
     "tests run a fixed set of programs from the image; a wrong fixup, call stub, heap offset or initializer shows only for the method or object it belongs to",
     "src/bootimage-fields.cpp src/tools/bootimage-generator/main.cpp src/compile.cpp src/machine.cpp src/heapwalk.cpp",
     [("generator of the image", "src/tools/bootimage-generator/main.cpp"), ("loading the image", "src/compile.cpp")],
     "the generators of the other properties on the boot image configuration", DIFF)

prop("C16", "The VM under OpenJDK's class library behaves as that library requires",
     """The VM built for OpenJDK's class library serves that library's native calls, intrinsics and VM entry points such that programs using its numbers, strings, streams, buffers, zip streams, serialization, concurrency and class initialization print what they print on OpenJDK's own VM,
     and a collected heap keeps every object and reference intact there too.""",
     "inputs histories schedules", "all generated programs of C08, C09, C15, C20, C21 and C25 to C28 run on the OpenJDK configuration",
     "tests run a fixed set of programs on it; the entry points (JVM_*, sun.misc.Unsafe, array copies, file and class access) are reached with few arguments",
     "src/classpath-openjdk.cpp src/machine.cpp src/jnienv.cpp src/compile.cpp src/heap/heap.cpp",
     [("entry points", "src/classpath-openjdk.cpp")],
     "the generators of the other properties on the OpenJDK configuration", DIFF)

prop("C07", "Lambdas and method references call what they refer to, with conversions",
     """A lambda expression or method reference of any shape (capturing variables, of a static, bound, unbound, constructor, interface, super or private method, of a generic or inherited functional interface, with marker interfaces) runs its body with
     every captured and passed value boxed, unboxed, widened and cast as the language specifies, gives its result converted likewise, throws what the body or a failing conversion throws, and can be linked by several threads at once and in any number of call sites.""",
     "inputs schedules", "all generated values for 420 generated call sites of 14 kinds with up to 6 arguments and 8 captured variables of all types, sequential and concurrent, and thousands of call sites in one process",
     "tests use a few lambdas whose types match exactly; the bytes of each lambda class are generated at run time from the types of the site",
     "classpath/java/lang/invoke/LambdaMetafactory.java src/machine.cpp src/compile.cpp src/interpret.cpp",
     [("generated lambda classes", "classpath/java/lang/invoke/LambdaMetafactory.java"), ("bootstrap arguments", "src/machine.cpp"), ("dynamic call sites", "src/compile.cpp")],
     "generated call sites and values compared with HotSpot", DIFF)

prop("C08", "Classes are initialized once, in order, on first use, and failures stick",
     """For any set of classes and interfaces whose static initializers use each other and may fail, each class is initialized at its first use (instance creation, static call, access to a non-constant static field, Class.forName, reflective use) and by no other use, its superclass before it and its interfaces not, by exactly one thread while others wait, and recursive uses by that thread proceed.
     A failed initialization throws the error itself or an ExceptionInInitializerError with the exception as its cause, and every later use throws NoClassDefFoundError, in the interpreter and in code compiled before, during or after the initialization.""",
     "histories schedules", "generated class sets (superclasses, interfaces, cycles of uses, five kinds of failure, handlers) and histories of uses by 14 kinds of bytecode and 9 kinds of reflection, on one thread or on up to six threads with generated plans",
     "tests initialize a handful of classes which never fail; the compiler leaves checks out depending on the state of the class when a method happens to be compiled",
     "src/machine.cpp src/compile.cpp src/interpret.cpp src/builtin.cpp classpath/java/lang/Class.java classpath/java/lang/ClassLoader.java classpath/avian/Classes.java",
     [("initialization", "src/machine.cpp"), ("checks in compiled code", "src/compile.cpp"), ("checks in the interpreter", "src/interpret.cpp"), ("class loading", "classpath/java/lang/ClassLoader.java")],
     "differential property test over generated class sets and histories of uses", "histories on several threads compare only what does not depend on the schedule; " + DIFF)
prop("C09", "Garbage collection keeps every reachable object and reference intact",
     """Whatever a program does to a graph of objects and arrays of all kinds (links, cycles, clones, copies of array ranges, identity hash codes, locks, references held only by locals, operands, exceptions, threads or native frames), minor and major collections at any point leave every reachable object with its identity, class, fields, elements and identity hash code,
     and every reference in the heap, in statics and on every thread's stack points to the object it pointed to before.""",
     "histories schedules", "all generated histories of graph changes with collections between and within operations, on one thread and on several, in all configurations and with a collection at every allocation",
     "tests allocate little and look at little; a lost dirty mark or a stale stack slot shows only for a particular history of promotions and writes",
     "src/heap/heap.cpp src/machine.cpp src/avian/machine.h src/compile.cpp src/interpret.cpp src/codegen classpath/java/lang/System.java",
     [("collector", "src/heap/heap.cpp"), ("roots and barriers", "src/machine.cpp"), ("stack maps", "src/compile.cpp")],
     "model-based histories of an object graph against a mirror kept outside it", "the mirror is kept in primitive arrays and numbers; " + DIFF)

prop("C10", "References, queues, finalizers and WeakHashMap follow reachability exactly",
     """While an object is strongly reachable no reference to it is cleared or enqueued, it is not finalized and its WeakHashMap entry stays; once it is not, collections clear its weak references, put each registered reference that is itself reachable into its own queue once, run its finalizer once, even if that makes it reachable again, enqueue phantom references after that, and drop its WeakHashMap entry and no other.
     Cleared references stay cleared, references dropped by the program are never enqueued, and isEnqueued and enqueue agree with the queue.""",
     "histories", "all generated histories of graph changes, reference operations, allocation and collections, in several configurations",
     "tests make one reference of each kind and collect once; order of finalization, promotion, queues and several entries of a map meet only in histories",
     "src/machine.cpp src/heap/heap.cpp classpath/java/lang/ref classpath/java/util/WeakHashMap.java classpath/java/util/HashMap.java",
     [("references after a collection", "src/machine.cpp"), ("queues", "classpath/java/lang/ref/ReferenceQueue.java"), ("weak map", "classpath/java/util/WeakHashMap.java")],
     "model-based histories against a mirror of the object graph, also run on OpenJDK to validate the model", "that something unreachable is collected at once is not required, only that repeated collections get it")

prop("C12", "JNI functions and native methods behave as the JNI specification says",
     """Arguments and results of native methods and of calls from native code (plain, variadic, array forms; virtual, static, constructors) arrive unchanged for every signature; strings, arrays, regions, critical sections, fields, references of all kinds, frames, monitors, exceptions, direct buffers, registered natives, reflection conversions, class definition and attached threads do what JNI specifies, also nested and with collections in between.
     Lookups that fail, bounds that are wrong and exceptions of called methods end in the specified pending exception and nothing else changes.""",
     "inputs histories", "all generated signatures and argument values, all generated scripts of JNI calls nested through Java and native frames and attached threads",
     "tests call a handful of signatures; classification of arguments to registers and stack, local references over collections and error paths need many combinations",
     "src/jnienv.cpp src/compile.cpp src/interpret.cpp src/x86_64.S src/avian/arch.h src/avian/target.h src/machine.cpp",
     [("JNI functions", "src/jnienv.cpp"), ("native calls", "src/compile.cpp"), ("native calls of the interpreter", "src/interpret.cpp")],
     "generated native methods, upcalls and scripts of JNI calls; differential against OpenJDK", DIFF)
