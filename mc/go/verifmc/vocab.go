package main

// vocab.go: names that occur in dumps (those of classes, methods and properties are from a JDK 17), and names that look like something else.

var vocabClasses = []string{
	"$",
	"$Proxy12",
	"0a/1b",
	"A",
	"App$$Lambda$14+0x0000000800c03000",
	"App$$Lambda$15/0x0000000840066840",
	"App$$Lambda+0x00007fae74004a08",
	"CONSTRUCTOR",
	"Class",
	"I",
	"Instances",
	"L",
	"LI",
	"LL",
	"Main",
	"Total",
	"Unknown",
	"V",
	"Z",
	"_",
	"a/$",
	"a/0/1",
	"a/<T>",
	"a/A",
	"a/Aa",
	"a/B!C",
	"a/B\"C",
	"a/B#c",
	"a/B$",
	"a/B$$EnhancerBySpringCGLIB$$1a2b3c",
	"a/B$$FastClassBySpringCGLIB$$ff",
	"a/B$$anonfun$1",
	"a/B$1",
	"a/B$1$2",
	"a/B$1Local",
	"a/B$ByteBuddy$abc",
	"a/B$Companion",
	"a/B$HibernateProxy$xyz",
	"a/B$Inner$Deep",
	"a/B$WhenMappings",
	"a/B$_run_closure1",
	"a/B$delayedInit$body",
	"a/B%d",
	"a/B%s%n",
	"a/B'C",
	"a/B()",
	"a/B(C)",
	"a/B*",
	"a/B+0x",
	"a/B+0xg",
	"a/B+C",
	"a/B,C",
	"a/B-impl",
	"a/B/0",
	"a/B/1",
	"a/B0x10",
	"a/B:C",
	"a/B<T>",
	"a/B=1",
	"a/B?C",
	"a/B@1f",
	"a/B\\C",
	"a/B^C",
	"a/B_$$_jvst1a2_0",
	"a/B{C}",
	"a/B|C",
	"a/B~1",
	"a/Integer",
	"a/LVeryLong/LI/VZ",
	"a/MainKt",
	"a/MainKt$main$1",
	"a/]",
	"a/_",
	"a/b c/D e",
	"a/b-c/D",
	"a/package-info",
	"byte",
	"class",
	"class_",
	"clojure/core$eval123$fn__456__auto__",
	"com/sun/management/DiagnosticCommandMBean",
	"com/sun/management/internal/PlatformMBeanProviderImpl",
	"com/sun/management/internal/PlatformMBeanProviderImpl$$Lambda$2+0x00007fae740434f8",
	"com/sun/management/internal/PlatformMBeanProviderImpl$1",
	"com/sun/management/internal/PlatformMBeanProviderImpl$2",
	"com/sun/management/internal/PlatformMBeanProviderImpl$3",
	"com/sun/management/internal/PlatformMBeanProviderImpl$4",
	"com/sun/management/internal/PlatformMBeanProviderImpl$5",
	"com/sun/proxy/$Proxy3",
	"groovy/lang/Closure$_1",
	"int",
	"java/io/BufferedOutputStream",
	"java/io/ByteArrayInputStream",
	"java/io/DefaultFileSystem",
	"java/io/File$PathStatus",
	"java/io/FileDescriptor",
	"java/io/FileDescriptor$1",
	"java/io/FileInputStream",
	"java/io/FileInputStream$1",
	"java/io/FileOutputStream",
	"java/io/FilePermission$1",
	"java/io/FilterInputStream",
	"java/io/Flushable",
	"java/io/ObjectStreamField",
	"java/io/OutputStreamWriter",
	"java/io/Serializable",
	"java/io/Writer",
	"java/lang/Appendable",
	"java/lang/ArrayStoreException",
	"java/lang/AutoCloseable",
	"java/lang/BootstrapMethodError",
	"java/lang/Byte$ByteCache",
	"java/lang/Character",
	"java/lang/Character$CharacterCache",
	"java/lang/CharacterData",
	"java/lang/Class",
	"java/lang/Class$3",
	"java/lang/Class$Atomic",
	"java/lang/Class$ReflectionData",
	"java/lang/ClassCastException",
	"java/lang/ClassLoader$ParallelLoaders",
	"java/lang/Cloneable",
	"java/lang/Double",
	"java/lang/Error",
	"java/lang/Float",
	"java/lang/IllegalMonitorStateException",
	"java/lang/Integer",
	"java/lang/Integer$IntegerCache",
	"java/lang/IntegerCache",
	"java/lang/InternalError",
	"java/lang/Iterable",
	"java/lang/LiveStackFrame",
	"java/lang/Long",
	"java/lang/Long$LongCache",
	"java/lang/Math",
	"java/lang/Module$ArchivedData",
	"java/lang/NamedPackage",
	"java/lang/NoSuchFieldException",
	"java/lang/NoSuchMethodException",
	"java/lang/Number",
	"java/lang/Object2",
	"java/lang/PublicMethods$Key",
	"java/lang/PublicMethods$MethodList",
	"java/lang/Readable",
	"java/lang/ReflectiveOperationException",
	"java/lang/Runtime",
	"java/lang/RuntimePermission",
	"java/lang/Short",
	"java/lang/Short$ShortCache",
	"java/lang/StackFrameInfo",
	"java/lang/StackStreamFactory$AbstractStackWalker",
	"java/lang/StackWalker",
	"java/lang/StackWalker$StackFrame",
	"java/lang/String$CaseInsensitiveComparator",
	"java/lang/StringBuilder",
	"java/lang/StringConcatHelper",
	"java/lang/StringUTF16",
	"java/lang/Strings",
	"java/lang/System$2",
	"java/lang/SystemX",
	"java/lang/Terminator",
	"java/lang/Terminator$1",
	"java/lang/Thread$State",
	"java/lang/Thread$UncaughtExceptionHandler",
	"java/lang/ThreadGroup",
	"java/lang/ThreadLocal",
	"java/lang/Throwable",
	"java/lang/VirtualMachineError",
	"java/lang/VirtualThread",
	"java/lang/annotation/Annotation",
	"java/lang/constant/ConstantDesc",
	"java/lang/invoke/BootstrapMethodInvoker",
	"java/lang/invoke/BoundMethodHandle$Specializer",
	"java/lang/invoke/BoundMethodHandle$Specializer$Factory",
	"java/lang/invoke/BoundMethodHandle$SpeciesData",
	"java/lang/invoke/BoundMethodHandle$Species_L",
	"java/lang/invoke/BoundMethodHandle$Species_LJ",
	"java/lang/invoke/BoundMethodHandle$Species_LL",
	"java/lang/invoke/BoundMethodHandle$Species_LLL",
	"java/lang/invoke/BoundMethodHandle$Species_LLLL",
	"java/lang/invoke/BoundMethodHandle$Species_LLLLL",
	"java/lang/invoke/BoundMethodHandle$Species_LLLLLL",
	"java/lang/invoke/CallSite",
	"java/lang/invoke/ClassSpecializer$1",
	"java/lang/invoke/ClassSpecializer$Factory",
	"java/lang/invoke/ClassSpecializer$SpeciesData",
	"java/lang/invoke/DelegatingMethodHandle",
	"java/lang/invoke/DelegatingMethodHandle$Holder",
	"java/lang/invoke/DirectMethodHandle",
	"java/lang/invoke/DirectMethodHandle$2",
	"java/lang/invoke/DirectMethodHandle$Accessor",
	"java/lang/invoke/DirectMethodHandle$Constructor",
	"java/lang/invoke/DirectMethodHandle$Holder",
	"java/lang/invoke/DirectMethodHandle$Interface",
	"java/lang/invoke/InfoFromMemberName",
	"java/lang/invoke/InnerClassLambdaMetafactory$1",
	"java/lang/invoke/InnerClassLambdaMetafactory$ForwardingMethodGenerator",
	"java/lang/invoke/InvokerBytecodeGenerator",
	"java/lang/invoke/InvokerBytecodeGenerator$2",
	"java/lang/invoke/InvokerBytecodeGenerator$ClassData",
	"java/lang/invoke/Invokers$Holder",
	"java/lang/invoke/LambdaForm$BasicType",
	"java/lang/invoke/LambdaForm$DMH+0x00007fae74003c00",
	"java/lang/invoke/LambdaForm$DMH+0x00007fae74004400",
	"java/lang/invoke/LambdaForm$DMH+0x00007fae74005000",
	"java/lang/invoke/LambdaForm$DMH/0x0000000800c01400",
	"java/lang/invoke/LambdaForm$Holder",
	"java/lang/invoke/LambdaForm$Kind",
	"java/lang/invoke/LambdaForm$MH+0x0000000800c01400",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74000400",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74001000",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74001400",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74001800",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74001c00",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74002000",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74002400",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74002800",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74002c00",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74003000",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74003400",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74003800",
	"java/lang/invoke/LambdaForm$MH+0x00007fae74004000",
	"java/lang/invoke/LambdaForm$Name",
	"java/lang/invoke/LambdaForm$NamedFunction",
	"java/lang/invoke/LambdaFormEditor",
	"java/lang/invoke/LambdaFormEditor$Transform",
	"java/lang/invoke/LambdaFormEditor$TransformKey",
	"java/lang/invoke/LambdaProxyClassArchive",
	"java/lang/invoke/MemberName$Factory",
	"java/lang/invoke/MethodHandleImpl",
	"java/lang/invoke/MethodHandleImpl$1",
	"java/lang/invoke/MethodHandleImpl$AsVarargsCollector",
	"java/lang/invoke/MethodHandleImpl$Intrinsic",
	"java/lang/invoke/MethodHandleImpl$IntrinsicMethodHandle",
	"java/lang/invoke/MethodHandleNatives",
	"java/lang/invoke/MethodHandleNatives$CallSiteContext",
	"java/lang/invoke/MethodHandleStatics",
	"java/lang/invoke/MethodHandles$1",
	"java/lang/invoke/MethodHandles$Lookup",
	"java/lang/invoke/MethodHandles$Lookup$ClassDefiner",
	"java/lang/invoke/MethodHandles$Lookup$ClassFile",
	"java/lang/invoke/MethodHandles$Lookup$ClassOption",
	"java/lang/invoke/MethodType$ConcurrentWeakInternSet",
	"java/lang/invoke/MethodType$ConcurrentWeakInternSet$WeakEntry",
	"java/lang/invoke/MethodTypeForm",
	"java/lang/invoke/ResolvedMethodName",
	"java/lang/invoke/StringConcatFactory",
	"java/lang/invoke/StringConcatFactory$1",
	"java/lang/invoke/StringConcatFactory$2",
	"java/lang/invoke/StringConcatFactory$3",
	"java/lang/invoke/TypeConvertingMethodAdapter",
	"java/lang/invoke/TypeDescriptor$OfField",
	"java/lang/invoke/TypeDescriptor$OfMethod",
	"java/lang/invoke/VarHandle",
	"java/lang/invoke/VarHandle$AccessMode",
	"java/lang/invoke/VarHandle$AccessType",
	"java/lang/management/DefaultPlatformMBeanProvider",
	"java/lang/management/DefaultPlatformMBeanProvider$1",
	"java/lang/management/DefaultPlatformMBeanProvider$10",
	"java/lang/management/DefaultPlatformMBeanProvider$11",
	"java/lang/management/DefaultPlatformMBeanProvider$2",
	"java/lang/management/DefaultPlatformMBeanProvider$3",
	"java/lang/management/DefaultPlatformMBeanProvider$4",
	"java/lang/management/DefaultPlatformMBeanProvider$5",
	"java/lang/management/DefaultPlatformMBeanProvider$6",
	"java/lang/management/DefaultPlatformMBeanProvider$7",
	"java/lang/management/DefaultPlatformMBeanProvider$8",
	"java/lang/management/DefaultPlatformMBeanProvider$9",
	"java/lang/management/ManagementFactory",
	"java/lang/management/ManagementFactory$$Lambda$1+0x00007fae74041650",
	"java/lang/management/ManagementFactory$PlatformMBeanFinder",
	"java/lang/management/ManagementFactory$PlatformMBeanFinder$$Lambda$7+0x00007fae74048ad0",
	"java/lang/management/ManagementFactory$PlatformMBeanFinder$$Lambda$8+0x00007fae74048d28",
	"java/lang/management/ManagementFactory$PlatformMBeanFinder$1",
	"java/lang/management/PlatformManagedObject",
	"java/lang/module/Configuration",
	"java/lang/module/ModuleDescriptor$1",
	"java/lang/module/ModuleDescriptor$Exports",
	"java/lang/module/ModuleDescriptor$Opens",
	"java/lang/module/ModuleDescriptor$Provides",
	"java/lang/module/ModuleDescriptor$Requires",
	"java/lang/module/ModuleDescriptor$Requires$Modifier",
	"java/lang/module/ModuleDescriptor$Version",
	"java/lang/module/ModuleReference",
	"java/lang/ref/Cleaner",
	"java/lang/ref/Cleaner$1",
	"java/lang/ref/Cleaner$Cleanable",
	"java/lang/ref/Finalizer",
	"java/lang/ref/Finalizer$FinalizerThread",
	"java/lang/ref/PhantomReference",
	"java/lang/ref/Reference$1",
	"java/lang/ref/Reference$ReferenceHandler",
	"java/lang/ref/ReferenceQueue",
	"java/lang/ref/ReferenceQueue$Lock",
	"java/lang/ref/ReferenceQueue$Null",
	"java/lang/ref/WeakReference",
	"java/lang/reflect/AnnotatedElement",
	"java/lang/reflect/Constructor",
	"java/lang/reflect/Field",
	"java/lang/reflect/Member",
	"java/lang/reflect/Modifier",
	"java/lang/reflect/RecordComponent",
	"java/lang/reflect/ReflectPermission",
	"java/net/URI",
	"java/net/URI$1",
	"java/net/URL",
	"java/net/URL$3",
	"java/net/URL$DefaultFactory",
	"java/net/URLStreamHandlerFactory",
	"java/nio/Buffer$1",
	"java/nio/ByteOrder",
	"java/nio/HeapByteBuffer",
	"java/nio/charset/Charset",
	"java/nio/charset/CoderResult",
	"java/nio/charset/spi/CharsetProvider",
	"java/nio/file/OpenOption",
	"java/nio/file/StandardOpenOption",
	"java/nio/file/attribute/BasicFileAttributes",
	"java/nio/file/spi/FileSystemProvider",
	"java/security/AccessController",
	"java/security/BasicPermission",
	"java/security/CodeSource",
	"java/security/Permission",
	"java/security/Permissions",
	"java/security/PrivilegedAction",
	"java/security/ProtectionDomain",
	"java/security/ProtectionDomain$JavaSecurityAccessImpl",
	"java/security/ProtectionDomain$Key",
	"java/security/SecureClassLoader$1",
	"java/security/SecureClassLoader$CodeSourceKey",
	"java/security/SecureClassLoader$DebugHolder",
	"java/security/Security$1",
	"java/security/Security$2",
	"java/security/UnresolvedPermission",
	"java/util/AbstractCollection",
	"java/util/AbstractSet",
	"java/util/ArrayDeque$DeqIterator",
	"java/util/ArrayList",
	"java/util/ArrayList$Itr",
	"java/util/Arrays$ArrayItr",
	"java/util/Arrays$ArrayList",
	"java/util/Collection",
	"java/util/Collections$1",
	"java/util/Collections$2",
	"java/util/Collections$EmptyEnumeration",
	"java/util/Collections$EmptyList",
	"java/util/Collections$EmptyMap",
	"java/util/Collections$EmptySet",
	"java/util/Collections$SetFromMap",
	"java/util/Collections$SingletonList",
	"java/util/Collections$SingletonMap",
	"java/util/Collections$SingletonSet",
	"java/util/Collections$UnmodifiableCollection",
	"java/util/Collections$UnmodifiableCollection$1",
	"java/util/Collections$UnmodifiableList",
	"java/util/Collections$UnmodifiableMap",
	"java/util/Collections$UnmodifiableRandomAccessList",
	"java/util/Collections$UnmodifiableSet",
	"java/util/Comparator",
	"java/util/EnumMap",
	"java/util/EnumMap$1",
	"java/util/EnumSet",
	"java/util/HashMap",
	"java/util/HashMap$EntryIterator",
	"java/util/HashMap$EntrySet",
	"java/util/HashMap$HashIterator",
	"java/util/HashMap$HashMapSpliterator",
	"java/util/HashMap$Node",
	"java/util/HashMap$TreeNode",
	"java/util/HashMap$ValueSpliterator",
	"java/util/HashMap$Values",
	"java/util/Hashtable$Entry",
	"java/util/ImmutableCollections",
	"java/util/ImmutableCollections$AbstractImmutableCollection",
	"java/util/ImmutableCollections$AbstractImmutableList",
	"java/util/ImmutableCollections$AbstractImmutableMap",
	"java/util/ImmutableCollections$AbstractImmutableSet",
	"java/util/ImmutableCollections$List12",
	"java/util/ImmutableCollections$ListItr",
	"java/util/ImmutableCollections$ListN",
	"java/util/ImmutableCollections$MapN",
	"java/util/ImmutableCollections$MapN$1",
	"java/util/ImmutableCollections$MapN$MapNIterator",
	"java/util/ImmutableCollections$Set12",
	"java/util/ImmutableCollections$Set12$1",
	"java/util/ImmutableCollections$SetN",
	"java/util/ImmutableCollections$SetN$SetNIterator",
	"java/util/KeyValueHolder",
	"java/util/LinkedHashMap$Entry",
	"java/util/List",
	"java/util/Locale",
	"java/util/Map$Entry",
	"java/util/Optional",
	"java/util/Properties$LineReader",
	"java/util/Queue",
	"java/util/RegularEnumSet",
	"java/util/ServiceLoader$1",
	"java/util/ServiceLoader$2",
	"java/util/ServiceLoader$3",
	"java/util/ServiceLoader$LazyClassPathLookupIterator",
	"java/util/ServiceLoader$ModuleServicesLookupIterator",
	"java/util/ServiceLoader$Provider",
	"java/util/ServiceLoader$ProviderImpl",
	"java/util/Spliterator",
	"java/util/Spliterator$OfDouble",
	"java/util/Spliterator$OfInt",
	"java/util/Spliterator$OfLong",
	"java/util/Spliterator$OfPrimitive",
	"java/util/Spliterators$ArraySpliterator",
	"java/util/Spliterators$EmptySpliterator",
	"java/util/Spliterators$EmptySpliterator$OfDouble",
	"java/util/Spliterators$EmptySpliterator$OfInt",
	"java/util/Spliterators$EmptySpliterator$OfLong",
	"java/util/Spliterators$EmptySpliterator$OfRef",
	"java/util/WeakHashMap",
	"java/util/WeakHashMap$Entry",
	"java/util/WeakHashMap$KeySet",
	"java/util/concurrent/ConcurrentHashMap$CounterCell",
	"java/util/concurrent/ConcurrentHashMap$ForwardingNode",
	"java/util/concurrent/ConcurrentHashMap$ReservationNode",
	"java/util/concurrent/ConcurrentHashMap$Segment",
	"java/util/concurrent/ConcurrentHashMaps",
	"java/util/concurrent/ConcurrentMap",
	"java/util/concurrent/ConcurrentSkipListMap",
	"java/util/concurrent/CopyOnWriteArrayList$COWIterator",
	"java/util/concurrent/atomic/AtomicInteger",
	"java/util/concurrent/locks/Lock",
	"java/util/concurrent/locks/ReentrantLock",
	"java/util/function/BiFunction",
	"java/util/function/Consumer",
	"java/util/function/Predicate",
	"java/util/jar/Attributes$Name",
	"java/util/logging/LogManager",
	"java/util/stream/BaseStream",
	"java/util/stream/Collector$Characteristics",
	"java/util/stream/Collectors$$Lambda$11+0x00007fae74049fb8",
	"java/util/stream/Collectors$$Lambda$12+0x00007fae7404a1d8",
	"java/util/stream/Collectors$$Lambda$13+0x00007fae7404a408",
	"java/util/stream/Collectors$$Lambda$22+0x800000035",
	"java/util/stream/Collectors$$Lambda$25+0x80000003c",
	"java/util/stream/Collectors$$Lambda$27+0x80000003e",
	"java/util/stream/Collectors$$Lambda$30+0x800000041",
	"java/util/stream/Collectors$CollectorImpl",
	"java/util/stream/PipelineHelper",
	"java/util/stream/ReduceOps$2",
	"java/util/stream/ReduceOps$2ReducingSink",
	"java/util/stream/ReduceOps$3",
	"java/util/stream/ReduceOps$3ReducingSink",
	"java/util/stream/ReduceOps$AccumulatingSink",
	"java/util/stream/ReduceOps$Box",
	"java/util/stream/ReduceOps$ReduceOp",
	"java/util/stream/ReferencePipeline$2",
	"java/util/stream/ReferencePipeline$2$1",
	"java/util/stream/ReferencePipeline$3",
	"java/util/stream/ReferencePipeline$3$1",
	"java/util/stream/ReferencePipeline$Head",
	"java/util/stream/ReferencePipeline$StatelessOp",
	"java/util/stream/Sink",
	"java/util/stream/Sink$ChainedReference",
	"java/util/stream/Stream",
	"java/util/stream/StreamOpFlag$MaskBuilder",
	"java/util/stream/StreamOpFlag$Type",
	"java/util/stream/StreamShape",
	"java/util/stream/TerminalOp",
	"javax/management/DynamicMBean",
	"javax/management/NotificationEmitter",
	"jdk/internal/access/JavaIOFilePermissionAccess",
	"jdk/internal/access/JavaLangInvokeAccess",
	"jdk/internal/access/JavaLangRefAccess",
	"jdk/internal/access/JavaNetURLAccess",
	"jdk/internal/access/JavaNioAccess",
	"jdk/internal/access/JavaSecurityPropertiesAccess",
	"jdk/internal/invoke/NativeEntryPoint",
	"jdk/internal/loader/AbstractClassLoaderValue$Memoizer",
	"jdk/internal/loader/BootLoader",
	"jdk/internal/loader/BuiltinClassLoader$LoadedModule",
	"jdk/internal/loader/ClassLoaderValue",
	"jdk/internal/loader/ClassLoaders$AppClassLoader",
	"jdk/internal/loader/ClassLoaders$BootClassLoader",
	"jdk/internal/loader/ClassLoaders$PlatformClassLoader",
	"jdk/internal/loader/NativeLibraries$1",
	"jdk/internal/loader/NativeLibraries$LibraryPaths",
	"jdk/internal/loader/NativeLibraries$NativeLibraryImpl",
	"jdk/internal/loader/Resource",
	"jdk/internal/loader/URLClassPath$3",
	"jdk/internal/loader/URLClassPath$FileLoader",
	"jdk/internal/loader/URLClassPath$FileLoader$1",
	"jdk/internal/loader/URLClassPath$Loader",
	"jdk/internal/math/FDBigInteger",
	"jdk/internal/misc/InnocuousThread",
	"jdk/internal/misc/ScopedMemoryAccess",
	"jdk/internal/misc/Signal$Handler",
	"jdk/internal/misc/Signal$NativeHandler",
	"jdk/internal/misc/Unsafe",
	"jdk/internal/misc/VM",
	"jdk/internal/module/ArchivedModuleGraph",
	"jdk/internal/module/ModuleBootstrap$Counters",
	"jdk/internal/module/ModuleHashes$HashSupplier",
	"jdk/internal/module/ModuleLoaderMap$Mapper",
	"jdk/internal/module/ModulePatcher",
	"jdk/internal/module/ModuleTarget",
	"jdk/internal/module/ServicesCatalog",
	"jdk/internal/module/ServicesCatalog$ServiceProvider",
	"jdk/internal/module/SystemModuleFinders$2",
	"jdk/internal/module/SystemModuleFinders$3",
	"jdk/internal/module/SystemModuleFinders$SystemModuleFinder",
	"jdk/internal/org/objectweb/asm/AnnotationWriter",
	"jdk/internal/org/objectweb/asm/ByteVector",
	"jdk/internal/org/objectweb/asm/ClassVisitor",
	"jdk/internal/org/objectweb/asm/ConstantDynamic",
	"jdk/internal/org/objectweb/asm/FieldWriter",
	"jdk/internal/org/objectweb/asm/Handle",
	"jdk/internal/org/objectweb/asm/Label",
	"jdk/internal/org/objectweb/asm/MethodWriter",
	"jdk/internal/org/objectweb/asm/SymbolTable",
	"jdk/internal/org/objectweb/asm/SymbolTable$Entry",
	"jdk/internal/org/objectweb/asm/Type",
	"jdk/internal/ref/CleanerFactory",
	"jdk/internal/ref/CleanerFactory$1",
	"jdk/internal/ref/CleanerImpl",
	"jdk/internal/ref/CleanerImpl$CleanerCleanable",
	"jdk/internal/ref/CleanerImpl$PhantomCleanableRef",
	"jdk/internal/reflect/CallerSensitive",
	"jdk/internal/reflect/ConstructorAccessor",
	"jdk/internal/reflect/DelegatingClassLoader",
	"jdk/internal/reflect/DelegatingMethodAccessorImpl",
	"jdk/internal/reflect/FieldAccessorImpl",
	"jdk/internal/reflect/GeneratedMethodAccessor12",
	"jdk/internal/reflect/MethodAccessor",
	"jdk/internal/reflect/NativeConstructorAccessorImpl",
	"jdk/internal/reflect/Reflection",
	"jdk/internal/reflect/ReflectionFactory$GetReflectionFactoryAction",
	"jdk/internal/reflect/UnsafeStaticFieldAccessorImpl",
	"jdk/internal/util/Preconditions",
	"jdk/internal/util/SystemProps",
	"jdk/internal/util/SystemProps$Raw",
	"jdk/internal/vm/vector/VectorSupport",
	"jdk/internal/vm/vector/VectorSupport$Vector",
	"jdk/internal/vm/vector/VectorSupport$VectorMask",
	"jdk/internal/vm/vector/VectorSupport$VectorPayload",
	"jdk/internal/vm/vector/VectorSupport$VectorShuffle",
	"jdk/management/jfr/internal/FlightRecorderMXBeanProvider",
	"jdk/management/jfr/internal/FlightRecorderMXBeanProvider$SingleMBeanComponent",
	"jdk/proxy2/$Proxy7",
	"kotlin/Unit",
	"kotlin/jvm/functions/Function1",
	"module-info",
	"null",
	"scala/Function1$mcII$sp",
	"scala/collection/immutable/$colon$colon",
	"sun/invoke/empty/Empty",
	"sun/invoke/util/ValueConversions",
	"sun/invoke/util/VerifyType",
	"sun/invoke/util/Wrapper$1",
	"sun/invoke/util/Wrapper$Format",
	"sun/launcher/LauncherHelper",
	"sun/net/util/URLUtil",
	"sun/net/www/protocol/file/Handler",
	"sun/nio/ByteBuffered",
	"sun/nio/cs/StandardCharsets",
	"sun/nio/cs/UTF_8",
	"sun/nio/cs/UTF_8$Encoder",
	"sun/nio/cs/Unicode",
	"sun/nio/fs/DefaultFileSystemProvider",
	"sun/nio/fs/LinuxFileSystemProvider",
	"sun/nio/fs/UnixFileStoreAttributes",
	"sun/nio/fs/UnixFileSystemProvider",
	"sun/nio/fs/UnixNativeDispatcher",
	"sun/nio/fs/Util",
	"sun/reflect/GeneratedConstructorAccessor3",
	"sun/security/action/GetBooleanAction",
	"sun/security/util/Debug",
	"sun/security/util/LazyCodeSourcePermissionCollection",
	"sun/util/locale/BaseLocale",
	"user$eval1$fn__2",
	"void",
	"x/String",
	"x/java/lang/String",
}

var vocabDescs = []string{
	"()J",
	"()Ljava/io/ObjectInputStream$GetField;",
	"()Ljava/io/ObjectOutputStream$PutField;",
	"()Ljava/io/PrintStream;",
	"()Ljava/lang/Boolean;",
	"()Ljava/lang/Exception;",
	"()Ljava/lang/Package;",
	"()Ljava/lang/StackWalker;",
	"()Ljava/lang/invoke/Invokers;",
	"()Ljava/lang/invoke/MemberName;",
	"()Ljava/lang/invoke/MethodType;",
	"()Ljava/lang/invoke/VarHandle;",
	"()Ljava/lang/invoke/VarHandleInts$FieldInstanceReadOnly;",
	"()Ljava/lang/management/ThreadMXBean;",
	"()Ljava/math/MutableBigInteger;",
	"()Ljava/net/InetAddressImpl;",
	"()Ljava/nio/ByteOrder;",
	"()Ljava/nio/ShortBuffer;",
	"()Ljava/nio/file/Path;",
	"()Ljava/security/PublicKey;",
	"()Ljava/text/AttributedCharacterIterator;",
	"()Ljava/text/Format;",
	"()Ljava/text/spi/NumberFormatProvider;",
	"()Ljava/time/Duration;",
	"()Ljava/time/ZoneOffset;",
	"()Ljava/time/chrono/Era;",
	"()Ljava/time/format/DateTimeParseContext;",
	"()Ljava/util/Comparator;",
	"()Ljava/util/Formatter$Flags;",
	"()Ljava/util/HashMap$TreeNode;",
	"()Ljava/util/HashMap$ValueSpliterator;",
	"()Ljava/util/IntSummaryStatistics;",
	"()Ljava/util/Iterator;",
	"()Ljava/util/LinkedHashMap$Entry;",
	"()Ljava/util/ListIterator;",
	"()Ljava/util/Spliterator$OfPrimitive;",
	"()Ljava/util/TimeZone;",
	"()Ljava/util/concurrent/ConcurrentNavigableMap;",
	"()Ljava/util/concurrent/ConcurrentSkipListMap$KeySpliterator;",
	"()Ljava/util/concurrent/Future;",
	"()Ljava/util/function/LongFunction;",
	"()Ljava/util/logging/LogManager;",
	"()Ljava/util/logging/Logger$LoggerBundle;",
	"()Ljava/util/logging/Logging;",
	"()Ljava/util/regex/Matcher;",
	"()Ljava/util/regex/Pattern$BmpCharPredicate;",
	"()Ljava/util/regex/Pattern$CharPredicate;",
	"()Ljava/util/regex/Pattern;",
	"()Ljava/util/stream/Stream$Builder;",
	"()Ljava/util/zip/Inflater;",
	"()Ljava/util/zip/ZipEntry;",
	"()Ljava/util/zip/ZipFile$Source$End;",
	"()Ljavax/security/auth/x500/X500Principal;",
	"()Ljdk/internal/access/JavaLangAccess;",
	"()Ljdk/internal/access/JavaObjectInputStreamReadString;",
	"()Ljdk/internal/access/JavaSecuritySignatureAccess;",
	"()Ljdk/internal/access/JavaUtilCollectionAccess;",
	"()Ljdk/internal/access/JavaxCryptoSealedObjectAccess;",
	"()Ljdk/internal/jimage/ImageHeader;",
	"()Ljdk/internal/loader/ArchivedClassLoaders;",
	"()Ljdk/internal/loader/ClassLoaderValue;",
	"()Ljdk/internal/loader/URLClassPath$Loader;",
	"()Ljdk/internal/org/objectweb/asm/Handle;",
	"()Ljdk/internal/org/objectweb/asm/Label;",
	"()Ljdk/internal/ref/Cleaner;",
	"()Lsun/invoke/util/Wrapper;",
	"()Lsun/nio/fs/LinuxFileSystemProvider;",
	"()Lsun/reflect/generics/factory/GenericsFactory;",
	"()Lsun/util/locale/InternalLocaleBuilder;",
	"()Lsun/util/spi/CalendarProvider;",
	"()[C",
	"()[Ljava/io/File;",
	"()[Ljava/lang/String;",
	"()[Ljava/lang/invoke/MethodHandles$Lookup$ClassOption;",
	"()[Ljava/lang/invoke/VarHandle$AccessType;",
	"()[Ljava/lang/module/ModuleDescriptor$Modifier;",
	"()[Ljava/lang/reflect/TypeVariable<*>;",
	"()[Ljava/security/ProtectionDomain;",
	"()[Ljava/security/cert/Certificate;",
	"()[Ljava/time/format/TextStyle;",
	"()[Ljava/time/temporal/JulianFields$Field;",
	"()[Ljava/time/zone/ZoneOffsetTransitionRule$TimeDefinition;",
	"()[Ljava/util/concurrent/TimeUnit;",
	"()[Ljdk/internal/module/ModuleTarget;",
	"(BB)I",
	"(BBLjava/lang/Class;Ljava/lang/invoke/MemberName;Ljava/lang/invoke/MemberName;Z)Ljava/lang/invoke/VarHandle;",
	"(BLjava/io/Serializable;)V",
	"(BLjava/lang/Class;Ljava/lang/String;Ljava/lang/Class;)Ljava/lang/invoke/MemberName;",
	"(BLjava/lang/Class<*>;Ljava/lang/String;Ljava/lang/Class<*>;)Ljava/lang/invoke/MemberName;",
	"(BLjava/lang/Class<*>;Ljava/lang/String;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MemberName;",
	"(BLjava/lang/Class<*>;Ljava/lang/invoke/MemberName;)Z",
	"(BLjava/lang/invoke/MemberName;Ljava/lang/Class;I)Ljava/lang/invoke/MemberName;",
	"(BZI)I",
	"(B[I[B)Ljava/lang/invoke/LambdaFormEditor$TransformKey;",
	"(C)Ljava/io/Writer;",
	"(C)Ljava/time/format/DecimalStyle;",
	"(D)Z",
	"(DF)V",
	"(DLjava/lang/StringBuffer;Ljava/text/Format$FieldDelegate;Z)Z",
	"(DZ)V",
	"(F)F",
	"(F)I",
	"(F)J",
	"(F)Ljdk/internal/math/FloatingDecimal$BinaryToASCIIConverter;",
	"(F)V",
	"(FLjava/util/Locale;)V",
	"(I)B",
	"(I)Ljava/io/FilePermission;",
	"(I)Ljava/lang/Class$AnnotationData;",
	"(I)Ljava/lang/IndexOutOfBoundsException;",
	"(I)Ljava/lang/Object;",
	"(I)Ljava/lang/invoke/TypeDescriptor$OfField;",
	"(I)Ljava/lang/reflect/Member;",
	"(I)Ljava/time/LocalDate;",
	"(I)Ljdk/internal/org/objectweb/asm/ByteVector;",
	"(I)[B",
	"(I)[Ljava/lang/Integer;",
	"(ID)Ljava/lang/StringBuilder;",
	"(II)Ljava/nio/MappedByteBuffer;",
	"(II)Ljava/text/CalendarBuilder;",
	"(IIB)I",
	"(IIC)I",
	"(III)Ljava/time/LocalDateTime;",
	"(III)Ljava/time/ZoneOffset;",
	"(III)Z",
	"(IIIILjava/util/Locale;I)Z",
	"(IIILjdk/internal/vm/vector/VectorSupport$VectorSpecies;)Ljdk/internal/vm/vector/VectorSupport$VectorShuffle;",
	"(IILjava/lang/Class;)V",
	"(IILjava/lang/Class<*>;)V",
	"(IILjava/lang/String;)Z",
	"(II[C)Ljava/lang/String;",
	"(II[Ljava/lang/Class;)Ljava/lang/invoke/MethodType;",
	"(IJIJ)V",
	"(IJILsun/nio/fs/UnixFileAttributes;)V",
	"(ILjava/lang/CharSequence;II)Ljava/lang/StringBuffer;",
	"(ILjava/lang/Object;)Ljava/lang/StringBuffer;",
	"(ILjava/lang/Object;)Ljava/lang/invoke/BoundMethodHandle;",
	"(ILjava/lang/String;)Ljava/lang/Class<*>;",
	"(ILjava/lang/String;)Ljava/lang/StringBuilder;",
	"(ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;)I",
	"(ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;Z)Ljdk/internal/org/objectweb/asm/Symbol;",
	"(ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;Z)V",
	"(ILjava/lang/StringBuilder;I)V",
	"(ILjava/lang/invoke/LambdaForm$BasicType;)V",
	"(ILjava/lang/invoke/LambdaForm$Name;)Ljava/lang/invoke/LambdaFormBuffer;",
	"(ILjava/lang/invoke/LambdaForm$Name;Z)V",
	"(ILjava/lang/invoke/MethodType;)Ljava/lang/invoke/LambdaForm;",
	"(ILjava/math/MathContext;)V",
	"(ILjava/util/Collection;)Z",
	"(ILjava/util/List;)Z",
	"(ILjava/util/concurrent/ForkJoinPool;)V",
	"(ILjava/util/stream/Sink;)Ljava/util/stream/Sink;",
	"(ILjdk/internal/org/objectweb/asm/ClassVisitor;)V",
	"(ILsun/security/util/ManifestEntryVerifier;)V",
	"(IZ)Ljava/lang/StringBuffer;",
	"(IZLjava/lang/Runnable;)V",
	"(IZLjava/lang/invoke/MethodType;)Ljava/lang/invoke/LambdaForm;",
	"(IZLjava/lang/invoke/MethodType;Ljava/lang/invoke/MethodType;[I)Ljava/lang/Class<*>;",
	"(I[BJI)I",
	"(I[C)Ljava/lang/AbstractStringBuilder;",
	"(I[CI)V",
	"(I[I)Ljava/nio/IntBuffer;",
	"(I[Ljava/lang/Class;)Ljava/lang/invoke/MethodType;",
	"(I[Ljava/lang/Class;)Ljava/util/function/BiFunction;",
	"(I[Ljava/lang/Class;Ljava/lang/invoke/VarHandle$AccessMode;Ljava/lang/invoke/MethodHandle;)Ljava/lang/invoke/MethodHandle;",
	"(I[Ljava/lang/invoke/LambdaForm$Name;IZLjava/lang/invoke/MethodHandle;Ljava/lang/invoke/LambdaForm$Kind;)V",
	"(I[Ljava/lang/invoke/MethodHandle;)Ljava/util/function/BiFunction;",
	"(I[Ljdk/internal/org/objectweb/asm/Label;)V",
	"(J)Ljava/lang/LiveStackFrame$PrimitiveSlot;",
	"(J)Ljava/time/chrono/ChronoLocalDate;",
	"(J)Ljava/util/stream/DoubleStream;",
	"(J)Ljdk/internal/org/objectweb/asm/ByteVector;",
	"(JDDD)V",
	"(JI)Ljava/lang/String;",
	"(JIJ)Ljava/math/BigDecimal;",
	"(JJ)Ljava/time/Duration;",
	"(JJ)V",
	"(JJ)Z",
	"(JJIJI)J",
	"(JJJ)Ljava/time/temporal/ValueRange;",
	"(JJJIIII)Ljava/math/BigDecimal;",
	"(JLjava/lang/Object;Ljava/lang/invoke/MemberName;)J",
	"(JLjava/lang/String;)V",
	"(JLjava/time/temporal/TemporalUnit;)Ljava/time/Duration;",
	"(JLjava/util/function/BiFunction;)Ljava/util/Map$Entry;",
	"(JLjava/util/function/Consumer;)V",
	"(JLjava/util/function/ToDoubleFunction;DLjava/util/function/DoubleBinaryOperator;)D",
	"(JLjava/util/function/ToLongBiFunction;JLjava/util/function/LongBinaryOperator;)J",
	"(JLjdk/internal/math/FDBigInteger;)J",
	"(JLsun/nio/fs/UnixFileAttributes;)V",
	"(JLsun/nio/fs/UnixFileStoreAttributes;)V",
	"(JS)J",
	"(J[BZ)J",
	"(Lcom/sun/management/internal/DiagnosticCommandImpl$Wrapper;)Ljavax/management/Descriptor;",
	"(Ljava/io/DataInput;)Ljava/time/LocalDate;",
	"(Ljava/io/DataInput;)Ljava/time/ZoneId;",
	"(Ljava/io/DataInput;)Ljava/time/zone/ZoneOffsetTransitionRule;",
	"(Ljava/io/DataInput;)V",
	"(Ljava/io/DataInputStream;)V",
	"(Ljava/io/DataOutput;)V",
	"(Ljava/io/File;)Ljava/io/File;",
	"(Ljava/io/File;)Ljava/net/URL;",
	"(Ljava/io/File;Ljava/io/File;)I",
	"(Ljava/io/File;Ljava/io/File;)Z",
	"(Ljava/io/File;Ljava/lang/String;)Ljava/io/RandomAccessFile;",
	"(Ljava/io/FileDescriptor;J)V",
	"(Ljava/io/InputStream;Ljava/lang/String;)V",
	"(Ljava/io/InputStream;Ljava/nio/charset/Charset;)V",
	"(Ljava/io/InputStream;Ljava/util/function/Supplier;)Ljava/lang/module/ModuleDescriptor;",
	"(Ljava/io/ObjectOutputStream;IF)V",
	"(Ljava/io/OutputStream;)J",
	"(Ljava/io/OutputStream;Ljava/nio/charset/CharsetEncoder;)V",
	"(Ljava/io/OutputStream;ZLjava/lang/String;)V",
	"(Ljava/io/PrintStream;I)V",
	"(Ljava/lang/Appendable;[BII)Ljava/lang/Appendable;",
	"(Ljava/lang/CharSequence;)Ljava/lang/Appendable;",
	"(Ljava/lang/CharSequence;)Ljava/time/Duration;",
	"(Ljava/lang/CharSequence;)V",
	"(Ljava/lang/CharSequence;Ljava/text/Normalizer$Form;)Z",
	"(Ljava/lang/Class;)C",
	"(Ljava/lang/Class;)Ljava/lang/String;",
	"(Ljava/lang/Class;)Ljava/lang/constant/ClassDesc;",
	"(Ljava/lang/Class;)Ljava/lang/invoke/LambdaForm$BasicType;",
	"(Ljava/lang/Class;)Ljava/util/function/Predicate;",
	"(Ljava/lang/Class;)Lsun/reflect/generics/scope/ClassScope;",
	"(Ljava/lang/Class;I)Ljava/lang/IllegalAccessException;",
	"(Ljava/lang/Class;ILjava/lang/Class;Ljava/lang/String;Ljava/lang/Object;[Ljava/lang/Object;)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/Class;JLjava/lang/Class;Z)V",
	"(Ljava/lang/Class;Ljava/lang/Class;)Ljava/util/List;",
	"(Ljava/lang/Class;Ljava/lang/Class;ILjava/lang/Object;JLjdk/internal/vm/vector/VectorSupport$Vector;Ljava/lang/Object;ILjdk/internal/vm/vector/VectorSupport$StoreVectorOperation;)V",
	"(Ljava/lang/Class;Ljava/lang/Class;ILjdk/internal/vm/vector/VectorSupport$Vector;IJLjdk/internal/vm/vector/VectorSupport$VecInsertOp;)Ljdk/internal/vm/vector/VectorSupport$Vector;",
	"(Ljava/lang/Class;Ljava/lang/Class;ZZ)Ljava/lang/Object;",
	"(Ljava/lang/Class;Ljava/lang/ModuleLayer;Ljava/lang/Class;)V",
	"(Ljava/lang/Class;Ljava/lang/Object;Ljava/lang/Object;)I",
	"(Ljava/lang/Class;Ljava/lang/String;)Z",
	"(Ljava/lang/Class;Ljava/lang/String;Ljava/lang/invoke/MethodType;Ljava/lang/invoke/MethodType;Ljava/lang/invoke/MemberName;Ljava/lang/invoke/MethodType;)Ljava/lang/Class;",
	"(Ljava/lang/Class;Ljava/lang/invoke/LambdaForm$Name;)Z",
	"(Ljava/lang/Class;Ljava/lang/invoke/MemberName;)Ljava/lang/String;",
	"(Ljava/lang/Class;Ljava/lang/invoke/MemberName;Ljava/lang/invoke/MethodHandles$Lookup;)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/Class;Ljava/lang/invoke/MethodHandle;Ljava/lang/String;Ljava/lang/Class;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/Class;Ljava/lang/invoke/MethodHandles$Lookup;)Ljava/lang/reflect/Member;",
	"(Ljava/lang/Class;Ljava/nio/ByteOrder;)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/Class;Ljava/util/List;)Ljava/lang/invoke/MethodType;",
	"(Ljava/lang/Class;Ljava/util/Map;)Ljava/lang/annotation/Annotation;",
	"(Ljava/lang/Class;ZJLjava/nio/ByteOrder;)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/Class;ZLjava/lang/String;Ljava/lang/Class;Ljava/lang/Class;)Ljava/util/List;",
	"(Ljava/lang/Class;[Ljava/lang/Class;[Ljava/lang/Class;ILjava/lang/Class;)Ljdk/internal/reflect/SerializationConstructorAccessorImpl;",
	"(Ljava/lang/Class;[Ljava/lang/reflect/Field;)[Ljava/lang/reflect/Field;",
	"(Ljava/lang/Class<*>;)Ljava/lang/Object;",
	"(Ljava/lang/Class<*>;)Ljava/security/ProtectionDomain;",
	"(Ljava/lang/Class<*>;)[Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/Class<*>;I)Ljava/lang/String;",
	"(Ljava/lang/Class<*>;I)V",
	"(Ljava/lang/Class<*>;II)Z",
	"(Ljava/lang/Class<*>;JLjava/lang/Class<*>;Ljava/lang/invoke/VarForm;Z)V",
	"(Ljava/lang/Class<*>;JLjava/lang/invoke/VarForm;Z)V",
	"(Ljava/lang/Class<*>;Ljava/lang/Class<*>;)Ljava/lang/invoke/MethodType;",
	"(Ljava/lang/Class<*>;Ljava/lang/Class<*>;Ljava/lang/Class<*>;I)Ljava/lang/IllegalAccessException;",
	"(Ljava/lang/Class<*>;Ljava/lang/String;)V",
	"(Ljava/lang/Class<*>;Ljava/lang/String;Ljava/lang/Class<*>;IZILjava/lang/String;[B)V",
	"(Ljava/lang/Class<*>;Ljava/lang/invoke/MemberName;)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/Class<*>;Ljava/lang/invoke/MethodHandleImpl$ArrayAccess;)Ljava/lang/String;",
	"(Ljava/lang/Class<*>;Ljava/net/URL;ILjava/lang/String;)V",
	"(Ljava/lang/Class<*>;Ljava/nio/ByteBuffer;Ljdk/internal/reflect/ConstantPool;Ljava/lang/Class<*>;)Ljava/lang/Object;",
	"(Ljava/lang/Class<*>;ZJLjava/nio/ByteOrder;)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/Class<*>;[Ljava/lang/Object;)V",
	"(Ljava/lang/ClassLoader;)Ljava/lang/Module;",
	"(Ljava/lang/ClassLoader;)Ljava/lang/String;",
	"(Ljava/lang/ClassLoader;)Ljava/util/Iterator;",
	"(Ljava/lang/ClassLoader;)Ljava/util/function/Predicate;",
	"(Ljava/lang/ClassLoader;Ljava/lang/Class;)V",
	"(Ljava/lang/ClassLoader;Ljava/lang/Object;)Z",
	"(Ljava/lang/ClassLoader;Ljava/lang/String;)J",
	"(Ljava/lang/ClassLoader;Ljdk/internal/loader/AbstractClassLoaderValue;Ljava/util/function/BiFunction;)V",
	"(Ljava/lang/ClassValue$Entry<*>;)Z",
	"(Ljava/lang/ClassValue<*>;)V",
	"(Ljava/lang/Double;)D",
	"(Ljava/lang/Enum;)V",
	"(Ljava/lang/Enum;Ljava/lang/Enum;Ljava/lang/Enum;Ljava/lang/Enum;)Ljava/util/EnumSet;",
	"(Ljava/lang/Enum;Ljava/lang/Enum;Ljava/lang/Enum;Ljava/lang/Enum;Ljava/lang/Enum;)Ljava/util/EnumSet;",
	"(Ljava/lang/Enum;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/Enum;[Ljava/lang/Enum;)Ljava/util/EnumSet;",
	"(Ljava/lang/Exception;)Ljava/lang/RuntimeException;",
	"(Ljava/lang/Exception;)Ljava/security/PrivilegedActionException;",
	"(Ljava/lang/Module;Ljava/lang/Class<*>;)Z",
	"(Ljava/lang/Module;Ljava/lang/Module;Ljava/util/ResourceBundle$CacheKey;Ljava/util/List;Ljava/util/List;ILjava/util/ResourceBundle$Control;Ljava/util/ResourceBundle;)Ljava/util/ResourceBundle;",
	"(Ljava/lang/Module;Ljava/lang/String;)Ljava/security/PrivilegedExceptionAction;",
	"(Ljava/lang/Module;Ljava/lang/String;Ljava/lang/Module;)Z",
	"(Ljava/lang/Module;Z)V",
	"(Ljava/lang/ModuleLayer;)Ljdk/internal/module/ServicesCatalog;",
	"(Ljava/lang/Object;)D",
	"(Ljava/lang/Object;)J",
	"(Ljava/lang/Object;)Ljava/lang/Runnable;",
	"(Ljava/lang/Object;)Ljava/text/AttributedCharacterIterator;",
	"(Ljava/lang/Object;)Ljava/util/stream/IntStream;",
	"(Ljava/lang/Object;C)V",
	"(Ljava/lang/Object;D)D",
	"(Ljava/lang/Object;F)F",
	"(Ljava/lang/Object;I)D",
	"(Ljava/lang/Object;I)Ljava/lang/Object;",
	"(Ljava/lang/Object;IF)V",
	"(Ljava/lang/Object;IJ)V",
	"(Ljava/lang/Object;ILjava/lang/Object;)V",
	"(Ljava/lang/Object;IS)V",
	"(Ljava/lang/Object;I[IILjdk/internal/vm/vector/VectorSupport$VectorSpecies;)Ljdk/internal/vm/vector/VectorSupport$Vector;",
	"(Ljava/lang/Object;I[Ljava/lang/Object;II)V",
	"(Ljava/lang/Object;J)S",
	"(Ljava/lang/Object;JCZ)V",
	"(Ljava/lang/Object;JJLjava/lang/invoke/MemberName;)J",
	"(Ljava/lang/Object;JLjava/lang/Class;)Ljava/lang/reflect/Field;",
	"(Ljava/lang/Object;JLjava/lang/Class<*>;)Ljava/lang/reflect/Field;",
	"(Ljava/lang/Object;JLjava/lang/Object;)J",
	"(Ljava/lang/Object;JZZ)Z",
	"(Ljava/lang/Object;Ljava/lang/Class;)I",
	"(Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/String;",
	"(Ljava/lang/Object;Ljava/lang/Object;)Ljava/util/SortedMap;",
	"(Ljava/lang/Object;Ljava/lang/Object;DI)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;I)J",
	"(Ljava/lang/Object;Ljava/lang/Object;I)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;ILjava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;ILjava/lang/Object;Ljava/lang/invoke/MemberName;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;JLjava/lang/Object;ILjava/lang/Object;)J",
	"(Ljava/lang/Object;Ljava/lang/Object;JLjava/lang/Object;Ljava/lang/Object;)J",
	"(Ljava/lang/Object;Ljava/lang/Object;JLjava/lang/invoke/MemberName;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;)V",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;I)I",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;JF)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;JI)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;J)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;)Ljava/util/Map;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;)Ljava/util/List;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;)Ljava/util/List;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;I)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;F)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/invoke/MemberName;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/invoke/MemberName;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/util/concurrent/ConcurrentHashMap;)V",
	"(Ljava/lang/Object;Ljava/lang/Object;Ljava/util/function/BiFunction;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Ljava/lang/Runnable;)Ljdk/internal/ref/Cleaner;",
	"(Ljava/lang/Object;Ljava/lang/ref/Cleaner;)V",
	"(Ljava/lang/Object;Ljava/util/function/Supplier;)Ljava/lang/Object;",
	"(Ljava/lang/Object;Z)B",
	"(Ljava/lang/Object;Z)I",
	"(Ljava/lang/Object;[Ljava/lang/Object;I)V",
	"(Ljava/lang/PublicMethods$MethodList;Ljava/lang/reflect/Method;)Ljava/lang/PublicMethods$MethodList;",
	"(Ljava/lang/Runnable;)Ljava/lang/Void;",
	"(Ljava/lang/Runnable;)V",
	"(Ljava/lang/Runnable;Ljava/lang/Object;)Ljava/util/concurrent/RunnableFuture;",
	"(Ljava/lang/StackWalker$Option;)Ljava/lang/StackWalker;",
	"(Ljava/lang/String;)B",
	"(Ljava/lang/String;)Ljava/io/InputStream;",
	"(Ljava/lang/String;)Ljava/lang/constant/ClassDesc;",
	"(Ljava/lang/String;)Ljava/lang/invoke/LambdaForm$BasicType;",
	"(Ljava/lang/String;)Ljava/lang/module/ModuleDescriptor$Builder;",
	"(Ljava/lang/String;)Ljava/lang/reflect/Field;",
	"(Ljava/lang/String;)Ljava/net/NetworkInterface;",
	"(Ljava/lang/String;)Ljava/net/URL;",
	"(Ljava/lang/String;)Ljava/nio/file/Path;",
	"(Ljava/lang/String;)Ljava/security/MessageDigest;",
	"(Ljava/lang/String;)Ljava/time/chrono/Chronology;",
	"(Ljava/lang/String;)Ljava/util/jar/JarFile$JarFileEntry;",
	"(Ljava/lang/String;)Ljava/util/regex/MatchResult;",
	"(Ljava/lang/String;)Lsun/invoke/util/Wrapper;",
	"(Ljava/lang/String;)Lsun/nio/fs/LinuxFileSystem;",
	"(Ljava/lang/String;)Lsun/util/calendar/Era;",
	"(Ljava/lang/String;)Lsun/util/locale/StringTokenIterator;",
	"(Ljava/lang/String;C)C",
	"(Ljava/lang/String;I)I",
	"(Ljava/lang/String;I)Lsun/util/calendar/ZoneInfo;",
	"(Ljava/lang/String;I)S",
	"(Ljava/lang/String;I)[Ljava/lang/String;",
	"(Ljava/lang/String;II)Ljava/util/Formatter$Flags;",
	"(Ljava/lang/String;IILjava/util/Locale;)Ljava/util/Map;",
	"(Ljava/lang/String;ILjava/lang/reflect/Executable;I)V",
	"(Ljava/lang/String;ILjava/util/Locale;)Ljava/lang/String;",
	"(Ljava/lang/String;JJ)Ljava/lang/String;",
	"(Ljava/lang/String;Ljava/lang/Class;Ljava/lang/String;Ljava/lang/Object;)Lsun/security/jca/GetInstance$Instance;",
	"(Ljava/lang/String;Ljava/lang/ClassLoader;)V",
	"(Ljava/lang/String;Ljava/lang/Exception;I)V",
	"(Ljava/lang/String;Ljava/lang/Module;)Z",
	"(Ljava/lang/String;Ljava/lang/ModuleLayer;)Ljava/lang/Module;",
	"(Ljava/lang/String;Ljava/lang/NamedPackage;)Ljava/lang/NamedPackage;",
	"(Ljava/lang/String;Ljava/lang/Runnable;Ljava/lang/ClassLoader;I)Ljava/lang/Thread;",
	"(Ljava/lang/String;Ljava/lang/String;)Lsun/security/util/Debug;",
	"(Ljava/lang/String;Ljava/lang/String;)V",
	"(Ljava/lang/String;Ljava/lang/String;)[Ljava/lang/String;",
	"(Ljava/lang/String;Ljava/lang/String;I)I",
	"(Ljava/lang/String;Ljava/lang/String;IIIIIILjdk/internal/jimage/ImageStrings;)Z",
	"(Ljava/lang/String;Ljava/lang/String;ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)V",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/io/File;)Ljava/io/File;",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)Z",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)Ljava/net/URI;",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)V",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/net/URL;)V",
	"(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;[Ljava/lang/String;I)Ljava/lang/String;",
	"(Ljava/lang/String;Ljava/lang/String;Ljdk/internal/org/objectweb/asm/Handle;[Ljava/lang/Object;)I",
	"(Ljava/lang/String;Ljava/lang/String;Z)I",
	"(Ljava/lang/String;Ljava/lang/String;[Ljava/nio/file/attribute/FileAttribute;)Ljava/nio/file/Path;",
	"(Ljava/lang/String;Ljava/lang/String;[Ljava/security/Provider;)Ljava/util/LinkedHashSet;",
	"(Ljava/lang/String;Ljava/lang/String;[Ljavax/management/MBeanParameterInfo;Ljava/lang/String;ILjavax/management/Descriptor;)V",
	"(Ljava/lang/String;Ljava/lang/invoke/ClassSpecializer$SpeciesData;)[B",
	"(Ljava/lang/String;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/LambdaForm$NamedFunction;",
	"(Ljava/lang/String;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/String;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/String;Ljava/lang/invoke/MethodType;I)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/String;Ljava/lang/invoke/MethodType;[Ljava/lang/Object;)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/String;Ljava/net/InetAddress;)V",
	"(Ljava/lang/String;Ljava/net/InetAddress;)[Ljava/net/InetAddress;",
	"(Ljava/lang/String;Ljava/nio/ByteBuffer;Ljava/security/CodeSource;)Ljava/lang/Class<*>;",
	"(Ljava/lang/String;Ljava/nio/charset/Charset;Ljava/util/Locale;)V",
	"(Ljava/lang/String;Ljava/text/ParsePosition;)Ljava/util/Date;",
	"(Ljava/lang/String;Ljava/util/Locale;Ljava/lang/Class<*>;Ljava/util/ResourceBundle$Control;)Ljava/util/ResourceBundle;",
	"(Ljava/lang/String;Ljava/util/ResourceBundle;)Ljava/lang/System$Logger;",
	"(Ljava/lang/String;Ljava/util/ResourceBundle;Ljava/lang/Module;)Ljava/lang/System$Logger;",
	"(Ljava/lang/String;Ljava/util/jar/JarEntry;)Ljava/util/jar/JarEntry;",
	"(Ljava/lang/String;Ljava/util/logging/Level;)Ljava/util/logging/Level;",
	"(Ljava/lang/String;Ljava/util/logging/LogManager$LoggerWeakRef;)V",
	"(Ljava/lang/String;Ljdk/internal/jimage/ImageReader$Directory;)Ljdk/internal/jimage/ImageReader$Directory;",
	"(Ljava/lang/String;Lsun/util/locale/ParseStatus;)Lsun/util/locale/LanguageTag;",
	"(Ljava/lang/String;Z)Ljava/time/ZoneId;",
	"(Ljava/lang/String;ZLjava/lang/ClassLoader;)Ljava/lang/Class<*>;",
	"(Ljava/lang/String;ZLjava/lang/ClassLoader;Ljava/lang/Class;)Ljava/lang/Class;",
	"(Ljava/lang/String;ZLjava/util/Set;)Ljava/lang/module/ModuleDescriptor$Builder;",
	"(Ljava/lang/String;[B)Ljava/net/InetAddress;",
	"(Ljava/lang/String;[B)Ljdk/internal/module/ModuleHashes$Builder;",
	"(Ljava/lang/String;[BI)Ljava/net/Inet6Address;",
	"(Ljava/lang/String;[BLjava/net/NetworkInterface;)V",
	"(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/LayerInstantiationException;",
	"(Ljava/lang/String;[Ljava/lang/String;)Ljava/nio/file/Path;",
	"(Ljava/lang/String;[Ljava/nio/file/attribute/FileAttribute;)Ljava/nio/file/Path;",
	"(Ljava/lang/String;[Ljava/nio/file/attribute/FileAttribute<*>;)Ljava/nio/file/Path;",
	"(Ljava/lang/String;[Ljdk/internal/module/ServicesCatalog$ServiceProvider;)V",
	"(Ljava/lang/StringBuffer;)Ljava/lang/StringBuffer;",
	"(Ljava/lang/StringBuilder;)I",
	"(Ljava/lang/System$Logger$Level;Ljava/lang/String;Ljava/lang/Throwable;)V",
	"(Ljava/lang/System$Logger$Level;Ljava/util/function/Supplier;Ljava/lang/Throwable;)V",
	"(Ljava/lang/Thread;)Ljava/lang/ThreadLocal$ThreadLocalMap;",
	"(Ljava/lang/ThreadGroup;Ljava/lang/Runnable;Ljava/lang/String;JZ)V",
	"(Ljava/lang/ThreadGroup;Ljava/util/concurrent/ForkJoinPool;)V",
	"(Ljava/lang/invoke/BoundMethodHandle;)F",
	"(Ljava/lang/invoke/BoundMethodHandle;IF)Ljava/lang/invoke/BoundMethodHandle;",
	"(Ljava/lang/invoke/BoundMethodHandle;ILjava/lang/Class<*>;Ljava/lang/Object;)Ljava/lang/invoke/BoundMethodHandle;",
	"(Ljava/lang/invoke/ClassSpecializer$SpeciesData;)Ljava/lang/invoke/ClassSpecializer$SpeciesData;",
	"(Ljava/lang/invoke/GenerateJLIClassesHelper$HolderClassBuilder;[Ljava/lang/String;)V",
	"(Ljava/lang/invoke/LambdaForm$BasicType;Ljava/lang/Class;Ljava/lang/Object;)V",
	"(Ljava/lang/invoke/LambdaForm$Name;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/LambdaForm$Name;IILjava/lang/invoke/LambdaForm$Name;ZLjava/lang/invoke/MethodType;[Ljava/lang/Class<*>;II)V",
	"(Ljava/lang/invoke/LambdaForm;)Z",
	"(Ljava/lang/invoke/LambdaFormEditor$TransformKey;)Z",
	"(Ljava/lang/invoke/MemberName;)J",
	"(Ljava/lang/invoke/MemberName;Ljava/lang/Class;IZ)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/invoke/MemberName;Ljava/lang/invoke/LambdaForm$Name;)V",
	"(Ljava/lang/invoke/MethodHandle;)Ljava/lang/invoke/BoundMethodHandle;",
	"(Ljava/lang/invoke/MethodHandle;)Ljava/lang/invoke/MethodHandleInfo;",
	"(Ljava/lang/invoke/MethodHandle;)V",
	"(Ljava/lang/invoke/MethodHandle;ILjava/util/List;IZ)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/invoke/MethodHandle;Ljava/lang/Class;Ljava/lang/invoke/MethodHandle;[Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodHandle;)V",
	"(Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodHandle;[Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodType;ZZ)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/invoke/MethodHandle;[Ljava/lang/Object;)V",
	"(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/invoke/MethodType;Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/invoke/MethodType;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MethodTypeForm;",
	"(Ljava/lang/invoke/MethodType;)V",
	"(Ljava/lang/invoke/MethodType;I)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/invoke/MethodType;I)V",
	"(Ljava/lang/invoke/MethodType;II)V",
	"(Ljava/lang/invoke/MethodType;Ljava/lang/invoke/LambdaForm;Ljava/lang/Object;)V",
	"(Ljava/lang/invoke/MethodType;Ljava/lang/invoke/LambdaForm;Ljava/lang/Object;J)V",
	"(Ljava/lang/invoke/MethodType;Ljava/lang/invoke/LambdaForm;Ljava/lang/invoke/MemberName;ZLjava/lang/invoke/MemberName;Ljava/lang/Class<*>;)V",
	"(Ljava/lang/invoke/MethodType;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/WrongMethodTypeException;",
	"(Ljava/lang/invoke/MethodTypeForm;)Ljava/lang/invoke/MemberName;",
	"(Ljava/lang/invoke/VarHandle$AccessDescriptor;)V",
	"(Ljava/lang/invoke/VarHandle;)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/invoke/VarHandle;DD)Z",
	"(Ljava/lang/invoke/VarHandle;I)V",
	"(Ljava/lang/invoke/VarHandle;IILjava/lang/invoke/MemberName;)I",
	"(Ljava/lang/invoke/VarHandle;JJLjava/lang/invoke/MemberName;)J",
	"(Ljava/lang/invoke/VarHandle;JJLjava/lang/invoke/VarHandle$AccessDescriptor;)Z",
	"(Ljava/lang/invoke/VarHandle;JLjava/lang/invoke/MemberName;)V",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;DDLjava/lang/invoke/VarHandle$AccessDescriptor;)D",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;DLjava/lang/invoke/VarHandle$AccessDescriptor;)D",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;F)F",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;I)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;I)V",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;IFFLjava/lang/invoke/MemberName;)F",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;IFFLjava/lang/invoke/VarHandle$AccessDescriptor;)Z",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;ILjava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;ILjava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;ILjava/lang/Object;Ljava/lang/invoke/VarHandle$AccessDescriptor;)V",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;ILjava/lang/invoke/MemberName;)I",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;ILjava/lang/invoke/VarHandle$AccessDescriptor;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;JJJ)J",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;JJJLjava/lang/invoke/MemberName;)J",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;JLjava/lang/invoke/VarHandle$AccessDescriptor;)V",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;Ljava/lang/Object;)V",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;Ljava/lang/Object;Ljava/lang/invoke/MemberName;)Z",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/Object;Ljava/lang/invoke/VarHandle$AccessDescriptor;)Ljava/lang/Object;",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/invoke/MemberName;)I",
	"(Ljava/lang/invoke/VarHandle;Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodHandle;)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/invoke/VarHandle;Ljava/util/List;[I)Ljava/lang/invoke/VarHandle;",
	"(Ljava/lang/management/DefaultPlatformMBeanProvider;)V",
	"(Ljava/lang/management/MemoryManagerMXBean;)Z",
	"(Ljava/lang/module/Configuration;)V",
	"(Ljava/lang/module/Configuration;Ljava/lang/String;)Z",
	"(Ljava/lang/module/Configuration;Ljava/lang/module/ModuleDescriptor$Requires;)Ljava/util/stream/Stream;",
	"(Ljava/lang/module/ModuleDescriptor$Exports;)Z",
	"(Ljava/lang/module/ModuleDescriptor$Provides;)V",
	"(Ljava/lang/module/ModuleDescriptor$Requires;)I",
	"(Ljava/lang/module/ModuleFinder;Ljava/util/Map;)Ljava/lang/module/Configuration;",
	"(Ljava/lang/module/ModuleFinder;Ljava/util/Set;Ljava/util/Set;)Ljava/lang/module/ModuleFinder;",
	"(Ljava/lang/module/ModuleReference;)Ljava/lang/module/ModuleReader;",
	"(Ljava/lang/module/ResolvedModule;)V",
	"(Ljava/lang/ref/Reference;)Z",
	"(Ljava/lang/ref/SoftReference;I)Ljava/lang/Class$ReflectionData;",
	"(Ljava/lang/reflect/Constructor;)Ljava/lang/String;",
	"(Ljava/lang/reflect/Constructor<*>;[Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/lang/reflect/Executable;)[Ljava/lang/Class<*>;",
	"(Ljava/lang/reflect/Method;)Ljava/lang/reflect/Method;",
	"(Ljava/lang/reflect/Method;)[Ljdk/internal/org/objectweb/asm/Type;",
	"(Ljava/lang/reflect/Method;Ljava/lang/Class<*>;)Ljava/lang/invoke/MethodHandle;",
	"(Ljava/lang/reflect/TypeVariable;)Ljava/lang/String;",
	"(Ljava/math/BigDecimal;)Ljava/time/Duration;",
	"(Ljava/math/BigDecimal;Ljava/math/BigInteger;)V",
	"(Ljava/math/BigDecimal;Ljava/math/MathContext;)Z",
	"(Ljava/math/BigInteger;JI)Ljava/math/BigInteger;",
	"(Ljava/math/BigInteger;Ljava/lang/StringBuffer;Ljava/text/FieldPosition;)Ljava/lang/StringBuffer;",
	"(Ljava/math/BigInteger;Ljava/math/BigInteger;)Ljava/math/BigInteger;",
	"(Ljava/math/BigInteger;Ljava/math/BigInteger;III)Ljava/math/BigDecimal;",
	"(Ljava/net/URI;)Ljava/net/URL;",
	"(Ljava/net/URL;)Ljava/security/Permission;",
	"(Ljava/net/URL;Ljava/lang/String;)Ljava/security/CodeSource;",
	"(Ljava/net/URL;Ljava/lang/String;)[Ljava/net/URL;",
	"(Ljava/net/URLStreamHandler;)Z",
	"(Ljava/net/URLStreamHandlerFactory;)V",
	"(Ljava/nio/ByteBuffer;)Ljava/nio/ByteBuffer;",
	"(Ljava/nio/ByteBuffer;ILjava/nio/ByteBuffer;II)I",
	"(Ljava/nio/ByteBuffer;Z)V",
	"(Ljava/nio/CharBuffer;)Ljava/nio/CharBuffer;",
	"(Ljava/nio/channels/WritableByteChannel;)Ljava/io/OutputStream;",
	"(Ljava/nio/charset/CharsetEncoder;Ljava/lang/StringBuilder;C)V",
	"(Ljava/nio/file/Path;)Ljava/nio/file/FileTreeWalker$Event;",
	"(Ljava/nio/file/Path;)Ljava/util/function/Supplier;",
	"(Ljava/nio/file/Path;Ljava/lang/String;[Ljava/nio/file/LinkOption;)Lsun/nio/fs/DynamicFileAttributeView;",
	"(Ljava/nio/file/Path;Ljava/nio/file/Path;[Ljava/nio/file/CopyOption;)Ljava/nio/file/Path;",
	"(Ljava/nio/file/Path;Ljava/nio/file/Path;[Ljava/nio/file/attribute/FileAttribute;)Ljava/nio/file/Path;",
	"(Ljava/nio/file/Path;Ljava/nio/file/attribute/BasicFileAttributes;)Z",
	"(Ljava/nio/file/Path;Ljava/nio/file/attribute/FileTime;)Ljava/nio/file/Path;",
	"(Ljava/nio/file/Path;Ljava/nio/file/attribute/UserPrincipal;)Ljava/nio/file/Path;",
	"(Ljava/nio/file/Path;Ljava/util/Set;[Ljava/nio/file/attribute/FileAttribute;)Ljava/nio/channels/FileChannel;",
	"(Ljava/nio/file/Path;Ljava/util/Set;[Ljava/nio/file/attribute/FileAttribute;)Ljava/nio/channels/SeekableByteChannel;",
	"(Ljava/nio/file/Path;[Ljava/nio/file/LinkOption;)Ljava/nio/file/attribute/FileTime;",
	"(Ljava/nio/file/WatchService;[Ljava/nio/file/WatchEvent$Kind<*>;)Ljava/nio/file/WatchKey;",
	"(Ljava/nio/file/WatchService;[Ljava/nio/file/WatchEvent$Kind<*>;[Ljava/nio/file/WatchEvent$Modifier;)Ljava/nio/file/WatchKey;",
	"(Ljava/security/AccessControlContext;)[Ljava/security/ProtectionDomain;",
	"(Ljava/security/AccessControlContext;Lsun/security/util/Debug;Ljava/security/ProtectionDomain;)V",
	"(Ljava/security/CodeSource;)Z",
	"(Ljava/security/CodeSource;Z)Z",
	"(Ljava/security/Permission;)Ljava/security/Permission;",
	"(Ljava/security/PermissionCollection;Ljava/security/CodeSource;)V",
	"(Ljava/security/PrivilegedExceptionAction;Ljava/security/AccessControlContext;Ljava/lang/Class;)Ljava/lang/Object;",
	"(Ljava/security/ProtectionDomain$JavaSecurityAccessImpl;)V",
	"(Ljava/security/cert/CertPath;Ljava/security/Timestamp;)V",
	"(Ljava/text/AttributedCharacterIterator$Attribute;Ljava/lang/Object;)V",
	"(Ljava/text/DecimalFormat;Ljava/text/DecimalFormatSymbols;)V",
	"(Ljava/text/Format$Field;I)Z",
	"(Ljava/time/Clock;Ljava/time/Duration;)Ljava/time/Clock;",
	"(Ljava/time/Clock;Ljava/time/Duration;)V",
	"(Ljava/time/Instant;Ljava/time/ZoneId;)Ljava/time/Clock;",
	"(Ljava/time/LocalDate;)Ljava/util/stream/Stream;",
	"(Ljava/time/LocalDate;Ljava/time/LocalTime;)Ljava/time/LocalDateTime;",
	"(Ljava/time/LocalDate;Ljava/time/Period;)Ljava/util/stream/Stream;",
	"(Ljava/time/LocalDateTime;)I",
	"(Ljava/time/LocalTime;)Z",
	"(Ljava/time/ZoneOffset;Ljava/time/ZoneOffset;Ljava/util/List;Ljava/util/List;Ljava/util/List;)V",
	"(Ljava/time/ZonedDateTime;)Ljava/util/GregorianCalendar;",
	"(Ljava/time/chrono/ChronoLocalDate;)I",
	"(Ljava/time/chrono/ChronoLocalDate;JJJ)Ljava/time/chrono/ChronoLocalDate;",
	"(Ljava/time/chrono/ChronoLocalDate;Ljava/time/temporal/TemporalAccessor;Ljava/time/chrono/Chronology;Ljava/time/ZoneId;)V",
	"(Ljava/time/chrono/Chronology;Ljava/time/temporal/TemporalField;JLjava/time/format/TextStyle;Ljava/util/Locale;)Ljava/lang/String;",
	"(Ljava/time/chrono/Era;II)Ljava/time/LocalDate;",
	"(Ljava/time/format/DateTimeFormatterBuilder;Ljava/time/format/DateTimeTextProvider$LocaleStore;)V",
	"(Ljava/time/format/FormatStyle;Ljava/time/format/FormatStyle;Ljava/time/chrono/Chronology;Ljava/util/Locale;)Ljava/lang/String;",
	"(Ljava/time/format/TextStyle;)V",
	"(Ljava/time/temporal/Temporal;Ljava/time/temporal/Temporal;)J",
	"(Ljava/time/temporal/Temporal;Ljava/time/temporal/TemporalUnit;)J",
	"(Ljava/time/temporal/TemporalAccessor;)Ljava/time/LocalDate;",
	"(Ljava/time/temporal/TemporalField;)Z",
	"(Ljava/time/temporal/TemporalField;I)Ljava/time/format/DateTimeFormatterBuilder;",
	"(Ljava/time/temporal/TemporalField;IIZ)V",
	"(Ljava/time/temporal/TemporalField;IIZI)V",
	"(Ljava/time/temporal/TemporalField;J)Ljava/time/LocalDateTime;",
	"(Ljava/time/temporal/TemporalField;Ljava/time/format/TextStyle;Ljava/time/format/DateTimeTextProvider;)V",
	"(Ljava/util/Collection;)Ljava/util/EnumSet;",
	"(Ljava/util/Collection;)Ljava/util/Enumeration;",
	"(Ljava/util/Collection;Ljava/lang/Class;)Ljava/util/Collection;",
	"(Ljava/util/Collection;Ljava/lang/Class;)V",
	"(Ljava/util/Collection;Ljava/util/Collection;)Z",
	"(Ljava/util/Collection;Ljava/util/Comparator;)Ljava/lang/Object;",
	"(Ljava/util/Comparator;)Ljava/util/Optional;",
	"(Ljava/util/Comparator;)Ljava/util/function/BinaryOperator;",
	"(Ljava/util/Comparator;Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;",
	"(Ljava/util/Date;)Ljava/lang/String;",
	"(Ljava/util/Date;)Z",
	"(Ljava/util/Date;Ljava/lang/StringBuffer;Ljava/text/Format$FieldDelegate;)Ljava/lang/StringBuffer;",
	"(Ljava/util/DoubleSummaryStatistics;Ljava/util/DoubleSummaryStatistics;)Ljava/util/DoubleSummaryStatistics;",
	"(Ljava/util/HashMap$Node;)V",
	"(Ljava/util/HashMap$TreeNode;Ljava/util/HashMap$TreeNode;)Ljava/util/HashMap$TreeNode;",
	"(Ljava/util/HashMap;)V",
	"(Ljava/util/HashSet;)Ljava/util/Set;",
	"(Ljava/util/HashSet;Ljava/lang/Object;)V",
	"(Ljava/util/HashSet;Ljava/util/HashSet;)Ljava/util/HashSet;",
	"(Ljava/util/ImmutableCollections$MapN;)V",
	"(Ljava/util/LinkedHashMap;)V",
	"(Ljava/util/LinkedList;)V",
	"(Ljava/util/LinkedList;I)V",
	"(Ljava/util/List;)Ljava/util/function/Predicate;",
	"(Ljava/util/List;)[Ljava/lang/invoke/MethodHandle;",
	"(Ljava/util/List;II)V",
	"(Ljava/util/List;Ljava/lang/module/ModuleReference;)Ljava/lang/module/ModuleReader;",
	"(Ljava/util/List;Ljava/util/List;Ljava/util/List;Ljava/util/List;I)Ljava/util/List;",
	"(Ljava/util/List;Ljava/util/List;[Ljava/lang/Object;)Ljava/lang/invoke/LambdaFormBuffer;",
	"(Ljava/util/List<*>;)Z",
	"(Ljava/util/List<*>;II)Z",
	"(Ljava/util/Locale;)Ljava/time/format/DecimalStyle;",
	"(Ljava/util/Locale;)Lsun/util/resources/TimeZoneNamesBundle;",
	"(Ljava/util/Locale;Ljava/lang/String;[Ljava/lang/Object;)Ljava/io/PrintStream;",
	"(Ljava/util/Map$Entry;Ljava/util/Map$Entry;)I",
	"(Ljava/util/Map;)Z",
	"(Ljava/util/Map;Ljava/util/Map;)Ljava/util/Map;",
	"(Ljava/util/Map;Ljava/util/Set;Ljava/util/Map;)V",
	"(Ljava/util/Map;Z)V",
	"(Ljava/util/Map<**>;)V",
	"(Ljava/util/Map<**>;)Z",
	"(Ljava/util/Optional;)Ljava/util/stream/Stream;",
	"(Ljava/util/Properties;)V",
	"(Ljava/util/Properties;I)V",
	"(Ljava/util/Properties;Ljava/lang/String;)Ljava/lang/String;",
	"(Ljava/util/Properties;Ljava/lang/String;Ljava/lang/String;)Ljava/lang/String;",
	"(Ljava/util/Properties;Ljava/util/Properties;)Ljava/util/function/Predicate;",
	"(Ljava/util/ResourceBundle;Ljava/lang/String;)V",
	"(Ljava/util/ServiceLoader;Ljava/lang/String;Ljava/util/Locale;Lsun/util/resources/Bundles$CacheKey;)V",
	"(Ljava/util/Set;)Ljava/util/Set;",
	"(Ljava/util/Set;)Ljava/util/function/Consumer;",
	"(Ljava/util/Set;)[Ljava/util/Locale;",
	"(Ljava/util/Set;Ljava/lang/Class;)Ljava/util/Set;",
	"(Ljava/util/Set;Ljava/lang/Class;)V",
	"(Ljava/util/Set;Ljava/lang/Module;)Z",
	"(Ljava/util/Set;Ljava/lang/String;Ljava/util/Set;)V",
	"(Ljava/util/SortedMap;)Ljava/util/SortedMap;",
	"(Ljava/util/SortedMap;Ljava/lang/Class;Ljava/lang/Class;)Ljava/util/SortedMap;",
	"(Ljava/util/TimeZone;)Z",
	"(Ljava/util/TimeZone;Ljava/util/Locale;)V",
	"(Ljava/util/TreeMap$Entry;)Ljava/lang/Object;",
	"(Ljava/util/TreeMap$Entry;)Ljava/util/TreeMap$Entry;",
	"(Ljava/util/WeakHashMap;)V",
	"(Ljava/util/concurrent/ConcurrentHashMap$BulkTask;III[Ljava/util/concurrent/ConcurrentHashMap$Node;Ljava/util/function/BiConsumer;)V",
	"(Ljava/util/concurrent/ConcurrentMap;Ljava/lang/Object;)V",
	"(Ljava/util/concurrent/ConcurrentNavigableMap;)V",
	"(Ljava/util/concurrent/ConcurrentSkipListMap$Index;Ljava/util/concurrent/ConcurrentSkipListMap$Index;Ljava/util/concurrent/ConcurrentSkipListMap$Index;)Z",
	"(Ljava/util/concurrent/CopyOnWriteArrayList;[Ljava/lang/Object;II)V",
	"(Ljava/util/concurrent/ForkJoinPool;JJ)Z",
	"(Ljava/util/concurrent/ForkJoinPool;ZZZJ)I",
	"(Ljava/util/concurrent/ForkJoinTask;Ljava/util/concurrent/ForkJoinPool;)V",
	"(Ljava/util/concurrent/ForkJoinTask<*>;Ljava/util/concurrent/ForkJoinPool$WorkQueue;)V",
	"(Ljava/util/concurrent/ForkJoinTask<*>;Z)Z",
	"(Ljava/util/concurrent/Future;)V",
	"(Ljava/util/concurrent/atomic/AtomicBoolean;Ljava/util/concurrent/ConcurrentHashMap;Ljava/lang/Object;)V",
	"(Ljava/util/concurrent/atomic/Striped64;II)Z",
	"(Ljava/util/concurrent/atomic/Striped64;J)J",
	"(Ljava/util/function/BiConsumer;)Ljava/util/stream/Stream;",
	"(Ljava/util/function/BiConsumer;Ljava/lang/Object;)Ljava/util/function/Consumer;",
	"(Ljava/util/function/BiConsumer;Ljava/util/function/Function;)Ljava/util/function/BiConsumer;",
	"(Ljava/util/function/BiPredicate;)Ljava/util/function/Predicate;",
	"(Ljava/util/function/BinaryOperator;[Ljava/lang/Object;[Ljava/lang/Object;)[Ljava/lang/Object;",
	"(Ljava/util/function/Consumer;)Ljava/util/function/IntConsumer;",
	"(Ljava/util/function/Consumer;)Ljava/util/stream/Stream;",
	"(Ljava/util/function/DoubleConsumer;)Ljava/util/function/DoubleConsumer;",
	"(Ljava/util/function/Function;)Ljava/util/Comparator;",
	"(Ljava/util/function/Function;)Ljava/util/stream/DoubleStream;",
	"(Ljava/util/function/Function;)Z",
	"(Ljava/util/function/Function;Ljava/util/function/Function;Ljava/util/function/BinaryOperator;Ljava/util/function/Supplier;)Ljava/util/stream/Collector;",
	"(Ljava/util/function/Function;Ljava/util/stream/Collector;)Ljava/util/stream/Collector;",
	"(Ljava/util/function/IntConsumer;Ljava/util/function/IntConsumer;)Ljava/util/function/IntConsumer;",
	"(Ljava/util/function/IntFunction;)Ljava/util/stream/Node;",
	"(Ljava/util/function/IntFunction;)[Ljava/lang/Object;",
	"(Ljava/util/function/IntUnaryOperator;)I",
	"(Ljava/util/function/Predicate;)Z",
	"(Ljava/util/function/Supplier;Ljava/util/function/BiConsumer;Ljava/util/function/BinaryOperator;Ljava/util/function/Function;[Ljava/util/stream/Collector$Characteristics;)Ljava/util/stream/Collector;",
	"(Ljava/util/function/ToDoubleFunction;)Ljava/util/stream/Collector;",
	"(Ljava/util/function/ToLongFunction;)Ljava/util/Comparator;",
	"(Ljava/util/jar/JarFile;)Ljava/util/Enumeration;",
	"(Ljava/util/jar/JarFile;)Ljava/util/List;",
	"(Ljava/util/jar/JarFile;)Ljava/util/Set;",
	"(Ljava/util/jar/JarFile;)Ljdk/internal/util/jar/JarIndex;",
	"(Ljava/util/jar/JarFile;Ljava/lang/String;)V",
	"(Ljava/util/jar/JarFile;Ljava/util/Enumeration;)Ljava/util/Enumeration;",
	"(Ljava/util/jar/JarFile;Z)Ljava/lang/String;",
	"(Ljava/util/jar/Manifest;)V",
	"(Ljava/util/jar/Manifest;Lsun/security/util/ManifestDigester;Ljava/util/List;)Z",
	"(Ljava/util/logging/Handler;Ljava/util/logging/Level;Ljava/util/logging/Filter;Ljava/util/logging/Formatter;Ljava/lang/String;)V",
	"(Ljava/util/logging/Level;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)V",
	"(Ljava/util/logging/Level;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;[Ljava/lang/Object;)V",
	"(Ljava/util/logging/LogManager$LoggerContext;Ljava/util/logging/Logger;Ljava/util/logging/LogManager;Ljava/lang/String;)V",
	"(Ljava/util/logging/LogManager;)V",
	"(Ljava/util/logging/LogManager;Ljava/lang/String;Ljava/lang/Module;)Ljava/util/logging/Logger;",
	"(Ljava/util/logging/LogRecord;Ljava/util/ResourceBundle;)V",
	"(Ljava/util/logging/Logger;)Ljava/util/function/Predicate;",
	"(Ljava/util/logging/Logger;Ljava/util/logging/LogManager$CloseOnReset;)Z",
	"(Ljava/util/random/RandomGenerator;)D",
	"(Ljava/util/random/RandomGenerator;DD)Ljava/util/stream/DoubleStream;",
	"(Ljava/util/random/RandomGenerator;II)Ljava/util/function/IntSupplier;",
	"(Ljava/util/random/RandomGenerator;J)Ljava/util/stream/DoubleStream;",
	"(Ljava/util/random/RandomGenerator;JDD)Ljava/util/stream/DoubleStream;",
	"(Ljava/util/regex/Pattern$BitClass;)Ljava/util/regex/Pattern$CharPredicate;",
	"(Ljava/util/regex/Pattern$BmpCharPredicate;)V",
	"(Ljava/util/regex/Pattern$BmpCharPredicate;Ljava/util/regex/Pattern$CharPredicate;)Ljava/util/regex/Pattern$CharPredicate;",
	"(Ljava/util/regex/Pattern$CharPredicate;)Ljava/util/regex/Pattern$CharPredicate;",
	"(Ljava/util/spi/CalendarDataProvider;Ljava/util/Locale;Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/Integer;",
	"(Ljava/util/stream/AbstractPipeline;)Ljava/util/function/Supplier;",
	"(Ljava/util/stream/AbstractPipeline;)Ljava/util/stream/IntStream;",
	"(Ljava/util/stream/AbstractPipeline;)Ljava/util/stream/Stream;",
	"(Ljava/util/stream/AbstractPipeline;Ljava/util/stream/StreamShape;I)V",
	"(Ljava/util/stream/BaseStream;Ljava/util/stream/BaseStream;)Ljava/lang/Runnable;",
	"(Ljava/util/stream/BaseStream<**>;Ljava/util/stream/BaseStream<**>;)Ljava/lang/Runnable;",
	"(Ljava/util/stream/Collector;Ljava/util/function/Function;)Ljava/util/stream/Collector;",
	"(Ljava/util/stream/Collectors$1OptionalBox;Ljava/lang/Object;)V",
	"(Ljava/util/stream/Collectors$1OptionalBox;Ljava/util/stream/Collectors$1OptionalBox;)Ljava/util/stream/Collectors$1OptionalBox;",
	"(Ljava/util/stream/Collectors$1PairBox;Ljava/lang/Object;)V",
	"(Ljava/util/stream/FindOps$FindOp;ZLjava/util/stream/PipelineHelper;Ljava/util/Spliterator;)V",
	"(Ljava/util/stream/Node$OfInt;)Ljava/util/stream/Node$OfInt;",
	"(Ljava/util/stream/PipelineHelper;Ljava/util/Spliterator;Ljava/util/function/IntFunction;)Ljava/util/stream/Node;",
	"(Ljava/util/stream/ReduceOps$2ReducingSink;)V",
	"(Ljava/util/stream/ReduceOps$3ReducingSink;)V",
	"(Ljava/util/stream/ReferencePipeline;Ljava/util/stream/AbstractPipeline;Ljava/util/stream/StreamShape;ILjava/util/function/BiConsumer;)V",
	"(Ljava/util/stream/ReferencePipeline;Ljava/util/stream/AbstractPipeline;Ljava/util/stream/StreamShape;ILjava/util/function/ToDoubleFunction;)V",
	"(Ljava/util/stream/ReferencePipeline;Ljava/util/stream/AbstractPipeline;Ljava/util/stream/StreamShape;ILjava/util/function/ToIntFunction;)V",
	"(Ljava/util/stream/ReferencePipeline;Ljava/util/stream/AbstractPipeline;Ljava/util/stream/StreamShape;ILjava/util/function/ToLongFunction;)V",
	"(Ljava/util/stream/Sink;)V",
	"(Ljava/util/stream/Sink;Ljava/util/Spliterator;)V",
	"(Ljava/util/stream/StreamOpFlag$Type;)Z",
	"(Ljava/util/zip/Inflater;J)V",
	"(Ljava/util/zip/ZipEntry;I)V",
	"(Ljava/util/zip/ZipFile$Source$Key;ZLjava/util/zip/ZipCoder;)V",
	"(Ljava/util/zip/ZipFile;Ljava/util/zip/ZipFile$ZipFileInputStream;Ljava/util/zip/ZipFile$CleanableResource;Ljava/util/zip/Inflater;I)V",
	"(Ljavax/management/MBeanServerConnection;Ljava/lang/Class;)Ljava/lang/management/PlatformManagedObject;",
	"(Ljavax/management/ObjectName;Ljavax/management/QueryExp;)Ljava/util/Set;",
	"(Ljdk/internal/access/JavaIORandomAccessFileAccess;)V",
	"(Ljdk/internal/access/JavaUtilJarAccess;)V",
	"(Ljdk/internal/access/JavaUtilResourceBundleAccess;)V",
	"(Ljdk/internal/access/JavaxCryptoSpecAccess;)V",
	"(Ljdk/internal/jimage/BasicImageReader;)Ljdk/internal/jimage/decompressor/ResourceDecompressor$StringsProvider;",
	"(Ljdk/internal/jimage/BasicImageReader;I)Ljdk/internal/jimage/ImageLocation;",
	"(Ljdk/internal/jimage/ImageReader$Directory;Ljdk/internal/jimage/ImageLocation;)V",
	"(Ljdk/internal/jimage/ImageReader$SharedImageReader;)V",
	"(Ljdk/internal/jmod/JmodFile$Section;)Ljava/lang/String;",
	"(Ljdk/internal/loader/BuiltinClassLoader;Ljava/lang/module/ModuleReference;)V",
	"(Ljdk/internal/loader/ClassLoaders$BootClassLoader;)V",
	"(Ljdk/internal/loader/URLClassPath$FileLoader;Ljava/lang/String;Ljava/net/URL;Ljava/io/File;)V",
	"(Ljdk/internal/loader/URLClassPath$Loader;Ljava/lang/String;Ljava/net/URL;Ljava/net/URLConnection;)V",
	"(Ljdk/internal/loader/URLClassPath;Ljava/net/URL;)V",
	"(Ljdk/internal/logger/BootstrapLogger;Lsun/util/logging/PlatformLogger$Level;Ljava/lang/String;[Ljava/lang/Object;)Ljdk/internal/logger/BootstrapLogger$LogEvent;",
	"(Ljdk/internal/logger/LazyLoggers$LazyLoggerAccessor;)Ljdk/internal/logger/SurrogateLogger;",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/io/FileDescriptor;JZJJ)V",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;J)I",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;JFF)Z",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;JII)I",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;JJ)V",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;JJZ)V",
	"(Ljdk/internal/misc/ScopedMemoryAccess$Scope;Ljava/lang/Object;JS)V",
	"(Ljdk/internal/module/ModuleHashes;Ljava/lang/String;Ljava/lang/String;)[B",
	"(Ljdk/internal/module/ModulePath;Ljava/util/jar/JarFile;)Ljava/util/function/Supplier;",
	"(Ljdk/internal/org/objectweb/asm/Frame;)V",
	"(Ljdk/internal/org/objectweb/asm/MethodWriter;)V",
	"(Ljdk/internal/org/objectweb/asm/SymbolTable;I[II)Z",
	"(Ljdk/internal/org/objectweb/asm/SymbolTable;Ljava/lang/String;)V",
	"(Ljdk/internal/org/objectweb/asm/SymbolTable;Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;)V",
	"(Ljdk/internal/org/objectweb/asm/SymbolTable;ZLjdk/internal/org/objectweb/asm/ByteVector;Ljdk/internal/org/objectweb/asm/AnnotationWriter;)V",
	"(Ljdk/internal/org/objectweb/asm/Type;[Ljdk/internal/org/objectweb/asm/Type;)Ljava/lang/String;",
	"(Ljdk/internal/perf/Perf;Ljava/nio/ByteBuffer;)V",
	"(Ljdk/internal/ref/PhantomCleanable;)V",
	"(Ljdk/internal/reflect/DelegatingMethodAccessorImpl;)V",
	"(Ljdk/internal/vm/vector/VectorSupport$Vector;ILjdk/internal/vm/vector/VectorSupport$VectorSpecies;)Ljdk/internal/vm/vector/VectorSupport$Vector;",
	"(Ljdk/vm/ci/meta/JavaKind;J)Ljdk/vm/ci/meta/PrimitiveConstant;",
	"(Lsun/invoke/util/Wrapper;)B",
	"(Lsun/invoke/util/Wrapper;)Ljava/lang/invoke/MethodHandle;",
	"(Lsun/invoke/util/Wrapper;)Z",
	"(Lsun/management/spi/PlatformMBeanProvider$PlatformComponent;)Z",
	"(Lsun/management/spi/PlatformMBeanProvider$PlatformComponent;Lsun/management/spi/PlatformMBeanProvider$PlatformComponent;)Lsun/management/spi/PlatformMBeanProvider$PlatformComponent;",
	"(Lsun/nio/fs/UnixMountEntry;)Ljava/nio/file/FileStore;",
	"(Lsun/nio/fs/UnixPath;II)V",
	"(Lsun/nio/fs/UnixPath;Z)V",
	"(Lsun/security/pkcs/PKCS7;)Ljava/util/ArrayList;",
	"(Lsun/util/calendar/BaseCalendar$Date;J)J",
	"(Lsun/util/calendar/CalendarDate;)Z",
	"(Lsun/util/cldr/CLDRLocaleProviderAdapter;)Ljava/security/PrivilegedAction;",
	"(Lsun/util/locale/BaseLocale;)Ljava/util/List;",
	"(Lsun/util/locale/BaseLocale;Lsun/util/locale/LocaleExtensions;)Lsun/util/locale/LanguageTag;",
	"(Lsun/util/locale/LanguageTag;)Lsun/util/locale/InternalLocaleBuilder;",
	"(Lsun/util/locale/provider/LocaleProviderAdapter$Type;)V",
	"(Lsun/util/locale/provider/LocaleProviderAdapter$Type;Ljava/util/Set;)V",
	"(Lsun/util/locale/provider/ResourceBundleBasedAdapter;Ljava/util/Locale;)V",
	"(Lsun/util/logging/PlatformLogger$Level;Ljava/lang/String;)V",
	"(Lsun/util/logging/PlatformLogger$Level;Ljava/util/ResourceBundle;Ljava/lang/String;Ljava/lang/Throwable;)V",
	"(Lsun/util/logging/internal/LoggingProviderImpl$LogManagerAccess;)V",
	"(Lsun/util/resources/Bundles$CacheKey;)Ljava/util/ResourceBundle;",
	"(S)Ljava/nio/ByteBuffer;",
	"(S)S",
	"(SS)Z",
	"(Z)Ljava/lang/StringBuffer;",
	"(Z)Ljava/lang/StringBuilder;",
	"(Z)Ljava/lang/invoke/MethodHandle;",
	"(Z)Ljdk/internal/module/Builder;",
	"(Z)Z",
	"(Z)[Ljava/lang/Class;",
	"(Z)[Ljava/lang/reflect/Constructor;",
	"(ZILjava/util/Locale;)Ljava/lang/String;",
	"(ZJI)V",
	"(ZLjava/io/OutputStream;)V",
	"(ZZ)Z",
	"(ZZJJZ)V",
	"([B)Ljava/lang/invoke/MethodHandles$Lookup$ClassDefiner;",
	"([B)[C",
	"([BIIII)I",
	"([BIIIIILjdk/internal/access/foreign/MemorySegmentProxy;)V",
	"([BII[J[J)V",
	"([BIZ)[B",
	"([BI[BI)V",
	"([BI[BI[BI)Ljava/lang/String;",
	"([BI[CII)I",
	"([BLjava/lang/CharSequence;I)Z",
	"([BLjava/lang/String;)V",
	"([BLjava/lang/String;I)[B",
	"([B[B)Z",
	"([B[B)[B",
	"([B[BI)Z",
	"([CII)[B",
	"([CIIC)V",
	"([CIIII)I",
	"([CIIIIILjdk/internal/access/foreign/MemorySegmentProxy;)V",
	"([CIILjava/math/MathContext;)V",
	"([C[I)I",
	"([C[I)V",
	"([DI)I",
	"([DI)V",
	"([DII)[D",
	"([DIID)I",
	"([DIILjava/util/function/DoubleBinaryOperator;)V",
	"([DI[DII)I",
	"([DLjava/util/function/DoubleBinaryOperator;)V",
	"([DLjava/util/function/IntToDoubleFunction;)Ljava/util/function/IntConsumer;",
	"([DLjava/util/function/IntToDoubleFunction;)V",
	"([FII[FII)Z",
	"([III)[B",
	"([ILjava/util/function/IntUnaryOperator;)Ljava/util/function/IntConsumer;",
	"([ILjava/util/function/IntUnaryOperator;)V",
	"([I[I)[I",
	"([J)I",
	"([J)Ljava/lang/Long;",
	"([J)Ljava/util/Spliterator$OfLong;",
	"([JII)Ljava/nio/LongBuffer;",
	"([JIIJ)I",
	"([JIILjdk/internal/access/foreign/MemorySegmentProxy;)V",
	"([JLjava/util/function/IntToLongFunction;)V",
	"([J[IJ)I",
	"([Ljava/lang/Class;I)Ljava/lang/reflect/Constructor;",
	"([Ljava/lang/Class;[Ljava/lang/Class;)Z",
	"([Ljava/lang/Class<*>;Ljava/lang/Class<*>;[Ljava/lang/Class<*>;)I",
	"([Ljava/lang/Comparable;II)V",
	"([Ljava/lang/Comparable;[Ljava/lang/Comparable;)I",
	"([Ljava/lang/Object;)Ljava/lang/Object;",
	"([Ljava/lang/Object;)Ljava/lang/String;",
	"([Ljava/lang/Object;)V",
	"([Ljava/lang/Object;I)Ljava/util/Spliterator;",
	"([Ljava/lang/Object;II)I",
	"([Ljava/lang/Object;II[Ljava/lang/Object;II)I",
	"([Ljava/lang/Object;II[Ljava/lang/Object;IILjava/util/Comparator;)Z",
	"([Ljava/lang/Object;ILjava/lang/Object;II)V",
	"([Ljava/lang/Object;[Ljava/lang/Object;)Z",
	"([Ljava/lang/Object;[Ljava/lang/Object;III)V",
	"([Ljava/lang/String;)[Lcom/sun/management/internal/DiagnosticCommandInfo;",
	"([Ljava/lang/String;[Ljava/lang/String;Ljava/io/File;)Ljava/lang/Process;",
	"([Ljava/lang/Thread;)[[Ljava/lang/StackTraceElement;",
	"([Ljava/lang/invoke/LambdaForm$BasicType;)[I",
	"([Ljava/lang/reflect/Method;Ljava/lang/String;[Ljava/lang/Class<*>;Z)Ljava/lang/PublicMethods$MethodList;",
	"([Ljava/security/CodeSigner;)[Ljava/security/cert/Certificate;",
	"([Ljava/security/cert/Certificate;[Ljava/security/cert/Certificate;)Z",
	"([Ljava/util/concurrent/ConcurrentHashMap$Node;)V",
	"([Ljava/util/concurrent/ConcurrentHashMap$Node;I)V",
	"([Ljava/util/concurrent/ConcurrentHashMap$Node;III)V",
	"([Ljava/util/concurrent/ForkJoinTask<*>;ILjava/util/concurrent/ForkJoinTask<*>;)Z",
	"([Ljava/util/regex/Pattern$CharPredicate;I)Z",
	"([S)Ljava/lang/String;",
	"([SI)S",
	"([S[S[S[S)I",
	"([Z[Z)Z",
	"([[Ljava/lang/String;)V",
}

var vocabKeys = []string{
	"-Dx",
	".",
	"..",
	".a",
	"AWS_SECRET_ACCESS_KEY",
	"Architecture",
	"Classes",
	"GC Roots",
	"Heap Size",
	"Instances",
	"JAVA_HOME",
	"JVM Uptime",
	"Java.Home",
	"JavaHome",
	"OS.name",
	"PATH",
	"System",
	"__proto__",
	"a.",
	"a..b",
	"api_key",
	"catalina.base",
	"catalina.home",
	"com.sun.management.jmxremote",
	"com.sun.management.jmxremote.authenticate",
	"com.sun.management.jmxremote.port",
	"db.password",
	"env.PATH",
	"file.encoding",
	"file.separator",
	"gradle.user.home",
	"http.nonProxyHosts",
	"http.proxyHost",
	"https.proxyPassword",
	"java",
	"java.awt.headless",
	"java.class.path",
	"java.class.version",
	"java.compiler",
	"java.endorsed.dirs",
	"java.ext.dirs",
	"java.home",
	"java.homes",
	"java.io.tmpdir",
	"java.library.path",
	"java.net.preferIPv4Stack",
	"java.rmi.server.hostname",
	"java.runtime.name",
	"java.runtime.version",
	"java.security.manager",
	"java.security.policy",
	"java.specification.maintenance.version",
	"java.specification.name",
	"java.specification.vendor",
	"java.specification.version",
	"java.util.logging.config.file",
	"java.vendor",
	"java.vendor.url",
	"java.vendor.url.bug",
	"java.vendor.version",
	"java.version",
	"java.version.date",
	"java.vm",
	"java.vm.compressedOopsMode",
	"java.vm.info",
	"java.vm.name",
	"java.vm.specification.name",
	"java.vm.specification.vendor",
	"java.vm.specification.version",
	"java.vm.vendor",
	"java.vm.version",
	"javax.net.ssl.keyStorePassword",
	"javax.net.ssl.trustStore",
	"javax.net.ssl.trustStorePassword",
	"jdk.debug",
	"jdk.internal.javac.source",
	"jdk.module.main",
	"jdk.module.main.class",
	"kotlinx.coroutines.debug",
	"line.separator",
	"log4j.configuration",
	"log4j2.formatMsgNoLookups",
	"logging.level.root",
	"maven.home",
	"name",
	"native.encoding",
	"os",
	"os.arch",
	"os.name",
	"os.name2",
	"os.version",
	"path.separator",
	"secret",
	"server.port",
	"spring.datasource.password",
	"spring.datasource.url",
	"spring.profiles.active",
	"sun.arch.data.model",
	"sun.boot.library.path",
	"sun.cpu.endian",
	"sun.cpu.isalist",
	"sun.io.unicode.encoding",
	"sun.java.command",
	"sun.java.launcher",
	"sun.jnu.encoding",
	"sun.management.compiler",
	"sun.nio.PageAlignDirectMemory",
	"sun.os.patch.level",
	"token",
	"user.dir",
	"user.home",
	"user.language",
	"user.name",
	"user.password",
	"version",
}

var vocabValues = []string{
	"https://ubuntu.com/",
	"release",
	"/usr/lib/jvm/java-17-openjdk-amd64",
	"HotSpot 64-Bit Tiered Compilers",
	"SUN_STANDARD",
	"17.0.21.0.3",
	"2026-10-24",
	"61.0",
	"Ubuntu",
	"Java Platform API Specification",
	".",
	"éÿ",
	"mixed mode, sharing",
	"root",
	"/",
	"\n",
	"Java Virtual Machine Specification",
	"17",
	"UnicodeLittle",
	":",
	"/root",
	"en",
	"4",
	"6.18.44-fc-v445",
	"little",
	"/usr/lib/jvm/java-17-openjdk-amd64/lib",
	"App",
	"UTF-8",
	"OpenJDK 64-Bit Server VM",
	"Oracle Corporation",
	"OpenJDK Runtime Environment",
	"1",
	"amd64",
	"2",
	"https://bugs.launchpad.net/ubuntu/+source/openjdk-17",
	"значение 😀",
	"",
	"/tmp",
	"/tmp/voc",
	"17.0.21.0.3+1-1-24.04.1-Ubuntu",
	"https://bugreport.java.com/bugreport/",
	"file:/usr/lib/jvm/",
	"jar:file:/a.jar!/BOOT-INF/classes!/",
	"/usr/java/packages/lib:/usr/lib64:/lib",
	"C:\\Program Files\\Java",
	"C:\\a;C:\\b",
	"\r\n",
	";",
	"\\",
	"true",
	"false",
	"TRUE",
	"null",
	"0",
	"-1",
	"1.8.0_392",
	"17.0.1+12-LTS",
	"22-ea",
	"64",
	"ANSI_X3.4-1968",
	"en_US.UTF-8",
	"*****",
	"${user.home}/x",
	"%d{HH:mm}",
	"a,b,c",
	"[a, b]",
	"{a=b}",
	"{\"a\": 1}",
	"<a/>",
	"user@host",
	"jdbc:mysql://h:3306/d?u=a&p=b",
	"-Xmx1g -Dx=y",
	"2024-01-01T00:00:00Z",
	"1,000",
	"1e9",
	"0x1f",
	"1G",
	"50%",
	"日本",
	"~/.m2",
	"//",
	"http://",
	"https://a b",
	"mailto:a@b",
	"www.example.org",
	"javascript:void(0)",
	"data:text/html,x",
	"abc\\",
	"\\u0041",
	"'q'",
	"\"q\"",
	"`q`",
	" lead",
	"trail ",
	"two  spaces",
	"tab\there",
	"multi\nline\nvalue",
	"\nlead",
	"trail\n",
	"\n\n",
}

var vocabMethods = []string{
	"main",
	"<init>",
	"<clinit>",
	"run",
	"run0",
	"call",
	"access$000",
	"access$1",
	"lambda$main$0",
	"lambda$new$1$2",
	"$values",
	"values",
	"invoke",
	"invoke0",
	"invokeStatic",
	"invokeExact_MT",
	"wait0",
	"park",
	"park0",
	"sleep",
	"sleep0",
	"$$YJP$$x",
	"a",
	"_",
	"$",
	"$_",
	"foo-impl",
	"foo$default",
	"foo$suspendImpl",
	"<get-x>",
	"component1",
	"copy$default",
	"$anonfun$new$1",
	"$plus$plus",
	"apply$mcII$sp",
	"doCall",
	"__clinit__",
	"get",
	"is",
	"set",
	"unknown",
	"null",
	"native",
	"Main",
	"class",
	"int",
	"void",
	"0",
	"1a",
	"a.b",
	"a,b",
	"a:1",
	"a+b",
	"a=b",
	"a~",
	"a!",
	"a?",
	"日本",
	"ключ",
	"é",
	"a'b",
	"a\"b",
	"toString",
	"hashCode",
	"finalize",
	"runWorker",
	"getTask",
	"linkToStatic",
	"linkToTargetMethod",
	"newInvokeSpecial",
	"guard",
	"delegate",
	"identity",
	"reinvoke",
	"a b",
	"my test",
	"should return 1",
	"a - b",
	"%s",
	"%d items",
	" ",
	"[compiled]",
	"[native]",
	"[unknown]",
	"unknown method",
}

var vocabFiles = []string{
	"Main.java",
	"Foo.kt",
	"Foo.scala",
	"core.clj",
	"Foo.groovy",
	"A.js",
	"a.rb",
	"A.class",
	"A",
	"A.JAVA",
	"a.b.java",
	"A$B.java",
	"<generated>",
	"<Unknown>",
	"<eval>",
	"SourceFile",
	"Proxy3",
	"NO_SOURCE_FILE",
	"form-init123.clj",
	"script1.groovy",
	"Native",
	"A.java:5",
	"A:B",
	"日本.java",
	"é.java",
	"a-b_c.java",
	"1.java",
	".java",
	"java",
	"A..java",
	"a/b.java",
	"C:\\A.java",
	"package-info.java",
	"module-info.java",
	"Foo.java.erb",
	"%s.java",
	"0",
	"null",
	"unknown",
	"Unknown Source",
	"Native Method",
	"My File.java",
	" A.java",
	"A.java ",
	"[native]",
	"[compiled]",
}

var vocabThreads = []string{
	"main",
	"Reference Handler",
	"Finalizer",
	"Signal Dispatcher",
	"Attach Listener",
	"C1 CompilerThread0",
	"C2 CompilerThread12",
	"Common-Cleaner",
	"Notification Thread",
	"Service Thread",
	"Monitor Deflation Thread",
	"VM Thread",
	"VM Periodic Task Thread",
	"G1 Main Marker",
	"GC Thread#0",
	"DestroyJavaVM",
	"Thread-0",
	"Thread-1",
	"pool-1-thread-1",
	"pool-10-thread-200",
	"ForkJoinPool.commonPool-worker-1",
	"ForkJoinPool-1-worker-3",
	"http-nio-8080-exec-1",
	"http-nio-127.0.0.1-8080-Acceptor",
	"https-jsse-nio-8443",
	"RMI TCP Connection(1)-127.0.0.1",
	"RMI TCP Connection(idle)",
	"JMX server connection timeout 24",
	"kafka-producer-network-thread | producer-1",
	"HikariPool-1 housekeeper",
	"HikariPool-1 connection adder",
	"Timer-0",
	"AWT-EventQueue-0",
	"process reaper",
	"OkHttp https://api.example.org/...",
	"SIGINT handler",
	"nioEventLoopGroup-2-1",
	"[ThreadPool Manager] - Idle Thread",
	"Worker-0: Building",
	"elasticsearch[node][generic][T#1]",
	"qtp123@70-1 - /x?y=z",
	"a, daemon, ID=7, prio=1, status=RUNNABLE",
	"\", daemon, ID=7",
	"daemon",
	"main\"",
	"\"main\"",
	"",
	"null",
	"unknown",
	"0",
	"ID=5",
	"x=\"y\"",
	"100%",
	"%s",
	"%!d",
	"C:\\x",
	"<init>",
	"@Async-1",
	"#1",
	"$1",
	"tab\tname",
	"a\\nb",
	"日本語",
	"поток",
	"🚀-1",
	"é",
	"é",
}
