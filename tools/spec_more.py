IGC = "src/IgniteCore.ts"
CFG = "src/config.ts"
prop("C15", "The configured stylesheet is in every shadow root exactly once",
 "Once a global stylesheet is configured, the shadow root of every Ignite element holds exactly one link to it, with the given href, integrity and cross-origin setting, ahead of the rendered content: from its creation if it was configured by then, otherwise from when a configuration file naming it is loaded. The very same link stays through every render, removal, reinsertion and move, with either renderer; the page outside the shadow roots is left alone, and a path that is not a stylesheet is reported and adds nothing.",
 ["histories", "configurations"], "every interleaving of configuring and loading the stylesheet with creating, rendering, removing, moving and forgetting elements of either renderer",
 "doubled, lost or re-created links depend on the order of configuration, creation, render and reconnection",
 ["src/injectStyles.ts", "src/globalStyles.ts", ELT, CFG, "src/config/loadIgniteConfig.ts"],
 [("link injection", "src/injectStyles.ts"), ("style setting and pending roots", "src/globalStyles.ts"), ("injection at element creation and after rendering", ELT)],
 ["links in every shadow root and in the page, after every step"],
 "runtime monitor: every shadow root inspected after each step of random configuration and lifecycle histories",
 "jsdom does not reflect integrity as an attribute, the property is compared; elements are light on content")
prop("C16", "Configuration takes effect exactly as given and only for later components",
 "After a configuration is defined, or loaded in any module form, exactly its recognised settings are in force: deprecated or unknown values are reported and never silently applied, and the value passed in is not modified. A module without a configuration or a loader that fails changes nothing. Every component is rendered by the renderer configured when it was defined - Ignite JSX if none was, or if the configured one cannot be had - and keeps it whatever is configured later.",
 ["configurations", "histories"], "every configuration value, module form, and interleaving of reconfiguration with component definition, element creation and rendering",
 "configuration is global state; precedence mistakes show only in particular orders",
 [CFG, "src/config/loadIgniteConfig.ts", "src/renderers/resolveConfiguredRenderStrategy.ts", "src/renderers/ignite-jsx.ts", CCF],
 [("global configuration", CFG), ("loading modules", "src/config/loadIgniteConfig.ts"), ("renderer selection", "src/renderers/resolveConfiguredRenderStrategy.ts")],
 ["configuration read back, console, which renderer produced an element's content"],
 "runtime monitor: executable model of the configuration compared after every step of random reconfiguration histories",
 "unknown renderer names fall back as the repository's tests pin")
prop("C17", "A failed render leaves nothing behind",
 "If rendering, deriving a value or running a command fails at any point - in the view, a component function, a value being converted, a derivation or the command itself - the failure leaves nothing behind: the next successful render shows exactly the current view with its handlers, the source's state is what the user's own code made it, and after the next change every connected element is right again.",
 ["crash_points", "histories"], "every view pair and every point of the update at which user code can throw, and every history with failures mixed in",
 "a half-applied update is visible only if the failure hits a particular point and is followed by a particular view",
 [JSX, "src/renderers/jsx/IgniteJsxRenderStrategy.ts", ELT, CCF],
 [("render bookkeeping", JSX), ("state updates and rendering", ELT), ("facade resolution", CCF)],
 ["DOM, handlers and source after recovery"],
 "runtime monitor with fault injection: every crash point of random updates made to throw, recovery judged against a reference render",
 "crash points enumerated per generated view pair (sampled above 14); listeners on one shared source after a throwing sibling only from the next change on", level="fault_enumeration")
prop("C18", "Removed and forgotten elements can be garbage collected",
 "Elements that have left the document and are no longer referenced by the user - with their content, handlers and the private sources Ignite created for them - can be garbage collected even while the shared source, the component definition and the configuration live on. Nodes and handlers that an update dropped from a view are likewise released although the element lives.",
 ["histories"], "every history of creating, using, moving and removing elements over all source kinds, both renderers, stylesheet configured or not",
 "retention never changes output, so no output-based test can see it",
 [FAC, ELT, CCF, "src/globalStyles.ts", JSX, AX, AR, AM],
 [("adapter registry per element", FAC), ("pending style roots", "src/globalStyles.ts"), ("listener bookkeeping", JSX)],
 ["WeakRefs to elements, nodes, handlers and sources after forced collection"],
 "runtime monitor: WeakRef liveness after forced garbage collection under lifecycle churn",
 "depends on V8 collecting unreachable objects when asked; a few stragglers tolerated per case")
prop("C19", "The general entry point treats every source like its own library's",
 "Components defined through the general entry point, with the library inferred from the source or named, behave just as through the library's own entry point, for every supported source: XState machines and actors, Redux slices, stores and store functions, MobX stores, classes and functions. Anything else - unsupported values or adapter names - is refused with an error when the component is defined, and a component without a source renders statically.",
 ["inputs", "histories"], "every form of supported source, every unsupported value, and every history of elements defined from them",
 "inference looks at shapes; a shape that is misread shows only for that source",
 [IGC, "src/igniteCore/index.ts", "src/xstate.ts", "src/redux.ts", "src/mobx.ts"],
 [("source inference", IGC)],
 ["shadow DOM and source of elements, errors raised on definition"],
 "runtime monitor: the fleet model of C05-C10 on inferred and named definitions, plus a refusal oracle",
 "16 forms of supported and 21 of unsupported sources")
VP, WP, CF = "src/plugins/viteIgniteConfigPlugin.ts", "src/plugins/webpackIgniteConfigPlugin.ts", "src/plugins/configFile.ts"
prop("C20", "The bundler plugins load the project's config file, once, everywhere",
 "The bundler plugins put exactly the project's configuration file in force - the given path, relative to the root or absolute, otherwise the first existing ignite.config file of ts, js, mjs, cjs - on every page of a Vite dev server or build, with any base path and nested pages, and ahead of the application in every webpack entry of any form. Apart from that entries, build options, pages and the objects the user passed are left as they were, and applying a plugin repeatedly still loads the file once. Without such a file nothing is injected.",
 ["configurations", "inputs"], "every project layout, config path, base path, set of pages and form of webpack entry",
 "paths, base, nesting and entry forms multiply; tests pin a few strings of injected text",
 [VP, WP, CF, "src/config/vite.ts", "src/config/webpack.ts"],
 [("Vite plugin", VP), ("webpack plugin", WP), ("finding the config file", CF)],
 ["which modules run, in which order, when the produced pages and entries are executed"],
 "runtime monitor: produced pages, builds, served modules and webpack entries executed, the load order logged and checked",
 "webpack itself is not installed: its entries are executed through esbuild; Vite is the installed version")
prop("C21", "Importing and defining without a DOM is harmless",
 "Every entry point of the package can be imported, in any order, where there is no DOM or only part of one: components can be defined over every library, JSX built and configuration defined and loaded without errors, rendering nothing. Globals that exist are never replaced or changed, no window or document is made up, the state of sources handed in is not changed, and the process can end by itself.",
 ["configurations", "histories"], "every order of importing and using the entry points, in processes with no or partial DOM globals",
 "import-time effects depend on which entry comes first and which globals exist",
 ["src/internal/setupDomPolyfill.ts", "src/index.ts", "src/xstate.ts", "src/redux.ts", "src/mobx.ts", FAC, "src/injectStyles.ts"],
 [("DOM stand-ins", "src/internal/setupDomPolyfill.ts"), ("registration", FAC)],
 ["global property descriptors around every step, errors, exit of the child process"],
 "runtime monitor: globals and outcomes logged in child processes running random import plans over the built package",
 "Node only")
RB, RT = "scripts/release-beta.mjs", "scripts/refresh-npm-token.js"
prop("C22", "A beta release publishes once, and only if everything before succeeded",
 "The beta release script publishes at most once, under the beta tag, and only after the clean-tree check, npm authentication, changeset status, tests, build, versioning and install all succeeded in that order; any failure stops it with a non-zero exit and nothing later runs. It exits 0 only if the publication was made, a dry run stays dry, and the one-time password reaches nothing but the publication and is never printed or put on a command line.",
 ["fault_sequences", "configurations"], "every failing step and way of failing, crossed with every way of giving the password and every option",
 "a release is irreversible; each fault point is a separate history that tests do not run",
 [RB], [("release pipeline", RB)], ["commands run with arguments and environment, output, exit status"],
 "runtime monitor with fault injection: recording stand-ins for git, npm and pnpm, the command log checked against the release protocol",
 "stand-ins for the tools; no network", level="fault_enumeration")
prop("C23", "Refreshing the npm token neither leaks nor loses a token",
 "When the npm token is refreshed, neither the old nor the new token is printed or appears in an error, command line or URL. A new token is created at most once and only if there is a place to store it, it is sent to nothing but the NPM_TOKEN secret of the named repository at the GitHub API, and success is reported only if it was stored.",
 ["fault_sequences", "inputs"], "every secret, npm outcome, HTTP answer and set of settings",
 "leaks sit on error paths that depend on which call fails and how",
 [RT], [("token rotation", RT)], ["requests, command lines, output, thrown errors"],
 "runtime monitor with fault injection: stand-in npm and recording fetch, all outputs searched for the secrets",
 "the value is stored as the script encodes it; encryption is not claimed")
prop("C25", "The entry points of the built package work as one, however bundled",
 "The entry points of the built package work together however the application bundles them - installed twice, or every entry point bundled on its own: configuration, stylesheet, renderer and JSX views made through one copy are in force for the components and elements of any other. The ES module and CommonJS forms of an entry point offer the same exports.",
 ["configurations", "histories"], "every assignment of the roles (configuring, loading, JSX, defining) to copies of the package, and every order of using them",
 "tests import the sources as one module graph, in which state cannot be split",
 [CFG, "src/globalStyles.ts", "src/renderers/resolveConfiguredRenderStrategy.ts", "src/renderers/RenderStrategy.ts", "src/config/loadIgniteConfig.ts", "src/jsx/index.ts"],
 [("configuration", CFG), ("style state", "src/globalStyles.ts"), ("renderer registry", "src/renderers/resolveConfiguredRenderStrategy.ts")],
 ["shadow DOM of elements whose parts come from different copies, export lists"],
 "runtime monitor: three builds of the working tree mixed at random in one page, display and stylesheet checked",
 "one known finding: CommonJS files cannot be required (see known-findings.json)")
prop("C24", "Every way of writing a view works alike; refused ones change nothing",
 "A component's view may be a function, an object with a render method or a class with one, own or inherited: all display the same for the same history, run with their own object as this, and each element of a blueprint-built component keeps one class instance of its own for its whole life. Registering a tag a second time is refused with an error, and a view that is none of these raises one at the latest when an element is made; neither changes the components and sources already in use.",
 ["inputs", "histories"], "every form of renderer over every source kind and history, and every refused registration between uses of live components",
 "forms, scopes and histories multiply; leaking instance state or a half-done registration shows only later",
 [FAC, CCF], [("renderer resolution and registration", FAC)],
 ["shadow DOM, the this of each render call per host, errors raised, definitions afterwards"],
 "runtime monitor: forms driven side by side through random histories, instance/host log checked, refusals injected",
 "15 forms; a class whose render is an instance field has no render method and is not claimed")
prop("C26", "Nothing the user hands in is modified",
 "Views, props, state, events, options and results of callbacks handed to Ignite are never modified or frozen: the same view object can be rendered again later and in several places at once and always shows the same, and objects given as props, event details or derived values arrive as the very same objects. The methods of the user's source and the built-ins of the page stay what they were.",
 ["histories", "inputs"], "every view reuse, every frozen or plain input, and every history over all source kinds",
 "sharing and mutation show only when an object is used a second time or was frozen",
 [JSX, "src/renderers/jsx/jsx-runtime.ts", "src/renderers/jsx/types.ts", CCF, ELT, FAC],
 [("JSX factories", "src/renderers/jsx/jsx-runtime.ts"), ("diffing renderer", JSX), ("facade", CCF)],
 ["object graphs (keys, values, frozenness), source methods and built-ins before and after"],
 "runtime monitor: deep-frozen or recorded inputs compared after random histories, reused views against a reference render",
 "object pictures stop at depth 40 and at class instances' prototypes")
prop("C27", "Compiled JSX renders what the JSX says",
 "JSX compiled by a standard compiler for the automatic runtime, in production or development mode and with the documented import source, renders exactly what its text says: elements, attributes (shorthand, spread, expressions), text, fragments, conditional and list children. Components receive exactly the props written on them, keys are never rendered, and views compiled in different modes can follow each other.",
 ["programs", "inputs"], "every JSX expression over elements, fragments and components, either compiler and mode",
 "tests contain a few dozen JSX expressions compiled one way",
 ["src/renderers/jsx/jsx-runtime.ts", "src/jsx/jsx-runtime.ts", "src/jsx/jsx-dev-runtime.ts", "src/jsx/index.ts", "src/renderers/jsx/types.ts", JSX],
 [("JSX runtime", "src/renderers/jsx/jsx-runtime.ts"), ("renderer", JSX)],
 ["rendered DOM and props received by components"],
 "runtime monitor: generated JSX programs compiled by esbuild and TypeScript, executed, DOM compared with a reference render",
 "key after a spread compiles to createElement, which the package does not offer; excluded")

prop("C28", "Adapters users write are driven by their contract",
 "A component made by the element factory over an adapter the user wrote uses it by its contract: in isolated scope every element has an adapter of its own, stopped exactly once when the element leaves; in shared scope all elements of the definition use one, stopped exactly once when the last connected one leaves - or never, if cleanup is switched off or the adapter itself says it is shared. No adapter is subscribed or sent to once it was stopped, no departed element stays subscribed, every event reaches the adapter once and untouched, and every connected element shows the adapter's current state with the additional arguments made once for that element and adapter.",
 ["histories", "configurations"], "every adapter honouring the interface (notifying at once or later, at subscription or not), scope, cleanup setting and history of elements of one or two tags",
 "the built-in adapters forgive misuse - stopping twice, sending after the end, never stopping - so tests over them cannot see it",
 [FAC, ELT, "src/IgniteAdapter.ts"],
 [("adapter ownership and reference count", FAC), ("subscription, sending, stopping", ELT)],
 ["every call on the user's adapters, shadow DOM"],
 "runtime monitor: recording adapters, their call log checked against a protocol automaton after every step of random histories",
 "adapters whose state is undefined or that throw are outside the domain")
prop("C29", "Custom render strategies get each element's views, in order, once",
 "An element renders through its own instance of the strategy its component was given - by the factory's option, else the one registered for the configured renderer when the component was defined: made and attached once, to that element's shadow root, before anything is rendered. It is handed exactly what the view returned, each once and only while the element is connected, and the last one is the view of the current state, also if rendering itself changes the state.",
 ["histories", "configurations"], "every way of supplying a strategy, every type of view value, and every history of elements and state changes",
 "the built-in strategies hide a second attach, a lost or repeated view and a mixed-up instance",
 [FAC, ELT, "src/renderers/resolveConfiguredRenderStrategy.ts", "src/renderers/RenderStrategy.ts"],
 [("strategy choice", FAC), ("attaching and rendering", ELT), ("registry", "src/renderers/resolveConfiguredRenderStrategy.ts")],
 ["every call on recording strategies"],
 "runtime monitor: recording strategies, their call log matched against the values views returned after every step",
 "detaching is not claimed: no version of the code calls it")
