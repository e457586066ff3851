From 29c9ff6d813cb4ea4b53817095adb8e31ca668c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 01/33] fix: keep declared attributes whose value equals the
 element default

A prop that is declared for the first time was skipped when the element's
property already read the same value, so <option value="">, <img alt=""> or
<input type="text"> rendered without the attribute.
---
 src/renderers/jsx/renderer.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..7214bcf 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -399,7 +399,7 @@ function patchProps(
 		}
 
 		if (!isSvgElement && key in element && key !== "list") {
-			applyProperty(element as HTMLElement, key, next);
+			applyProperty(element as HTMLElement, key, next, prev);
 			continue;
 		}
 
@@ -517,8 +517,10 @@ function applyProperty(
 	element: HTMLElement,
 	key: string,
 	value: unknown,
+	prev: unknown,
 ): void {
-	if (key === "value" || key === "checked") {
+	const isOption = element instanceof HTMLOptionElement;
+	if ((key === "value" && !isOption) || key === "checked") {
 		const current = Reflect.get(element, key);
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
 			Reflect.set(element, key, value);
@@ -526,8 +528,10 @@ function applyProperty(
 		return;
 	}
 
-	const current = Reflect.get(element, key);
-	if (current !== value) {
+	// A newly declared prop is always written: the element may already report the
+	// same value as its default without carrying the attribute.
+	const isNew = prev === undefined || prev === null || prev === false;
+	if (isNew || Reflect.get(element, key) !== value) {
 		Reflect.set(element, key, value);
 	}
 }
-- 
2.43.0


From 2a8373737250f52523e7fdaaf03a2fde0ef9abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 02/33] fix: removing a prop restores the element's default

Removed string props were assigned undefined, leaving the text "undefined" in
inputs and textareas (and for="undefined" on labels), and constrained numeric
props such as size or progress.value threw.
---
 src/renderers/jsx/renderer.ts | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 7214bcf..4be00b6 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,13 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+// Properties whose content attribute has a different name.
+const PROPERTY_ATTRIBUTE_NAMES: Record<string, string> = {
+	htmlFor: "for",
+	httpEquiv: "http-equiv",
+	acceptCharset: "accept-charset",
+};
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -503,11 +510,22 @@ function removeProp(
 	}
 
 	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
+		// Reset the property to avoid stale values; built-in string properties
+		// would otherwise be coerced to the text "undefined".
+		const isBuiltInString =
+			!element.localName.includes("-") &&
+			typeof Reflect.get(element, key) === "string";
+		try {
+			Reflect.set(element, key, isBuiltInString ? "" : undefined);
+		} catch {
+			// Constrained numeric properties reject undefined; dropping the
+			// attribute below restores their default.
+		}
 	}
 
-	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
+	const attrName = isSvg
+		? normalizeSvgAttributeName(key)
+		: (PROPERTY_ATTRIBUTE_NAMES[key] ?? key);
 	if (element.hasAttribute(attrName)) {
 		element.removeAttribute(attrName);
 	}
-- 
2.43.0


From c3daf29875fc24ee733f68805d1f9ed5a8f64015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 03/33] fix: clear style properties that become null or
 undefined

A style object entry changing to null or undefined kept its previous value.
---
 src/renderers/jsx/renderer.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 4be00b6..7dd18ac 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -432,12 +432,14 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		}
 
 		for (const [key, value] of Object.entries(nextObj)) {
-			if (value != null) {
-				const cssProperty = toKebabCase(key);
-				const nextValue = String(value);
-				if (style.getPropertyValue(cssProperty) !== nextValue) {
-					style.setProperty(cssProperty, nextValue);
-				}
+			const cssProperty = toKebabCase(key);
+			if (value == null) {
+				style.removeProperty(cssProperty);
+				continue;
+			}
+			const nextValue = String(value);
+			if (style.getPropertyValue(cssProperty) !== nextValue) {
+				style.setProperty(cssProperty, nextValue);
 			}
 		}
 		return;
-- 
2.43.0


From 5df671c3517778667f76e0e3e0483f5cb09f61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 04/33] fix: render attributes whose property is read-only

Props such as form on <button> and <input> were silently dropped because the
matching DOM property has no setter.
---
 src/renderers/jsx/renderer.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 7dd18ac..d62006e 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -552,7 +552,10 @@ function applyProperty(
 	// same value as its default without carrying the attribute.
 	const isNew = prev === undefined || prev === null || prev === false;
 	if (isNew || Reflect.get(element, key) !== value) {
-		Reflect.set(element, key, value);
+		if (!Reflect.set(element, key, value)) {
+			// Read-only property (e.g. `form`): fall back to the attribute.
+			element.setAttribute(key, String(value));
+		}
 	}
 }
 
-- 
2.43.0


From 6ae23e8ef31e93b68df9955dd72537d8b6e80c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 05/33] fix: select the declared option once the options exist

The value of a <select> was assigned before its options were created, so the
declared option was never selected on mount or when options changed.
---
 src/renderers/jsx/renderer.ts | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index d62006e..2df5eb2 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -246,6 +246,7 @@ function patchNode(
 	}
 
 	const elementNode = domNode as Element & ParentNode;
+	const previousOptions = describeOptions(elementNode);
 
 	patchProps(elementNode, oldNode.props, newNode.props);
 
@@ -277,6 +278,13 @@ function patchNode(
 		}
 	}
 
+	if (
+		oldNode.props.value !== newNode.props.value ||
+		describeOptions(elementNode) !== previousOptions
+	) {
+		selectDeclaredOption(elementNode, newNode.props);
+	}
+
 	return domNode;
 }
 
@@ -298,11 +306,27 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
 			}
+			selectDeclaredOption(element, node.props);
 			return element;
 		}
 	}
 }
 
+// A <select> can only take its value once the matching option exists, so the
+// declared value is applied again after the options were created or changed.
+function selectDeclaredOption(element: Element, props: IgniteJsxProps): void {
+	const { value } = props;
+	if (!(element instanceof HTMLSelectElement)) return;
+	if (value === undefined || value === null || value === false) return;
+	element.value = String(value);
+}
+
+function describeOptions(element: Element): string | null {
+	return element instanceof HTMLSelectElement
+		? JSON.stringify(Array.from(element.options, (option) => option.value))
+		: null;
+}
+
 function isAppendOnlyCompatible(
 	oldChildren: NormalizedNode[],
 	newChildren: NormalizedNode[],
-- 
2.43.0


From 02f4cd8e7979eb94e90c49facf13d4b9e639bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 06/33] fix: remount after a render that threw

When a render threw half-way, the next render was diffed against a tree the DOM
no longer matched and left remains of the failed view behind.
---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..ffd2394 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -84,19 +84,18 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 					? "flag-disabled"
 					: null);
 
+		const previousTree = this.previousTree;
+		// Until the render completes the DOM may match neither tree; a failed
+		// render is followed by a full mount instead of a diff.
+		this.previousTree = null;
 		this.previousTree =
-			this.previousTree === null
+			previousTree === null
 				? mountIgniteJsx(this.contentRoot, view)
-				: renderIgniteJsx(
-						this.contentRoot,
-						view,
-						this.previousTree ?? undefined,
-						{
-							mode,
-							onFallbackReplace: (reason) =>
-								this.logFallback(reason, this.getHostTag()),
-						},
-					);
+				: renderIgniteJsx(this.contentRoot, view, previousTree, {
+						mode,
+						onFallbackReplace: (reason) =>
+							this.logFallback(reason, this.getHostTag()),
+					});
 
 		if (forceReason) {
 			this.logFallback(forceReason, this.getHostTag());
-- 
2.43.0


From 94f573b87b373009ad950599d446cd2bcd2e98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 07/33] fix: insert the stylesheet link ahead of rendered
 content

A link flushed after the first render was appended inside the range the lit
renderer owns and disappeared with the next root template change.
---
 src/injectStyles.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 883210d..c65ba67 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -88,7 +88,8 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			}
 		}
 
-		shadowRoot.appendChild(linkElement);
+		// Keep styles ahead of rendered content: renderers own what follows them.
+		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
-- 
2.43.0


From ca11f6b77e4f53e261d4940fa3117970c99e7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 08/33] fix: do not keep every shadow root alive while no
 styles are set

Without configured styles each rendered shadow root stayed in a global set, so
no element was ever garbage collected.
---
 src/injectStyles.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index c65ba67..5e6748e 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -1,9 +1,13 @@
+/// <reference lib="es2021.weakref" />
 import { getGlobalStyles } from "./globalStyles";
 
 // Global caches
 const shadowRootCache = new WeakMap<ShadowRoot, Set<string>>();
 const initializedRoots = new WeakSet<ShadowRoot>();
-const pendingRoots = new Set<ShadowRoot>();
+const pendingRoots = new Set<WeakRef<ShadowRoot>>();
+const collectedRoots = new FinalizationRegistry<WeakRef<ShadowRoot>>((ref) => {
+	pendingRoots.delete(ref);
+});
 
 // Debug system
 enum DebugNamespace {
@@ -45,7 +49,9 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			DebugNamespace.GLOBAL_STYLES,
 			"No globalStyles set when initializing shadow root. Pending for later flush.",
 		);
-		pendingRoots.add(shadowRoot);
+		const pendingRoot = new WeakRef(shadowRoot);
+		pendingRoots.add(pendingRoot);
+		collectedRoots.register(shadowRoot, pendingRoot);
 		// Do not mark initialized; we'll retry once styles are available.
 		return;
 	}
@@ -138,9 +144,12 @@ export function flushPendingStyles(): void {
 		return;
 	}
 
-	for (const root of Array.from(pendingRoots)) {
-		pendingRoots.delete(root);
+	for (const pendingRoot of Array.from(pendingRoots)) {
+		pendingRoots.delete(pendingRoot);
 		debugLog(DebugNamespace.INJECT_STYLES, "Flushing pending root");
-		injectStyles(root);
+		const root = pendingRoot.deref();
+		if (root) {
+			injectStyles(root);
+		}
 	}
 }
-- 
2.43.0


From 23a01c25c0e6bfd69899f408fda730c7ccd3d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 09/33] fix: render falsy states

A source whose state is 0, "", false or null was treated as uninitialised: the
element rendered nothing, or kept showing the previous state.
---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..c2e67c1 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -74,7 +74,7 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (!this._isActive || this._currentState === undefined) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From 55add3991a3eba0aa6852026de38a12de81e271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 10/33] fix: keep the final state when a Redux adapter stops

After stop() the adapter reported the state as of its own last send, ignoring
changes dispatched directly on the store in between.
---
 src/adapters/ReduxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..2c282c5 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -99,7 +99,11 @@ const buildAdapter = <
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
+			if (isStopped) {
+				return;
+			}
 			cleanupSubscriptions();
+			lastKnownState = store.getState();
 			isStopped = true;
 		},
 		scope,
-- 
2.43.0


From 0855698252d4d2537089bd92135dfde776f8335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 11/33] fix: reject undeclared events named like
 Object.prototype members

The development check accepted names such as "toString" or "constructor" as
declared events.
---
 src/createComponentFactory.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/createComponentFactory.ts b/src/createComponentFactory.ts
index 776ec5c..d116b04 100644
--- a/src/createComponentFactory.ts
+++ b/src/createComponentFactory.ts
@@ -244,7 +244,7 @@ export function createComponentFactoryWithRenderer<
 	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
 		((type: keyof Events & string, detail: unknown) => {
 			if (isDevelopment()) {
-				if (!(type in eventDefinitions)) {
+				if (!Object.prototype.hasOwnProperty.call(eventDefinitions, type)) {
 					throw new Error(
 						`[createComponentFactory] Unknown event "${type}". Declare it in the events map before emitting.`,
 					);
-- 
2.43.0


From ddc65bd78d41e74550f832dc07a1264c5b9bc319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 12/33] fix: import config files from dot directories
 relatively

A config path such as .config/ignite.config.ts was injected as a bare module
specifier, which the browser cannot resolve.
---
 src/plugins/viteIgniteConfigPlugin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..887b557 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -125,7 +125,7 @@ function getImportSpecifier(
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
 			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${normalized}`;
 		}
 	}
 
-- 
2.43.0


From 3c5b41455fcf56051d4df84d095e46b78770d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 13/33] fix: do not print the generated npm token

The freshly created publish token was written to the (CI) log in clear text.
---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..41d690b 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,7 +17,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
-- 
2.43.0


From cb152f39c9aeb78f6248c75bedd20746ef9c40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:15 +0000
Subject: [PATCH 14/33] fix: revive elements that are reinserted or moved

After its last element left the document a shared factory kept handing out the
stopped adapter, so later or reinserted elements threw or never updated; an
isolated element that was moved or reinserted stayed dead. Shared factories now
open a new adapter on the same source, and elements resolve a live adapter when
they are connected.
---
 src/IgniteElement.ts          | 12 ++++++++
 src/IgniteElementFactory.ts   | 20 ++++++++++--
 src/adapters/MobxAdapter.ts   | 18 +++++++----
 src/adapters/ReduxAdapter.ts  | 57 +++++++++++++++++++++--------------
 src/adapters/XStateAdapter.ts | 17 ++++++++---
 5 files changed, 90 insertions(+), 34 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index c2e67c1..a2c9147 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -137,6 +137,18 @@ export default abstract class IgniteElement<
 		this._currentState = state;
 	}
 
+	/**
+	 * Continues on another adapter, e.g. because the previous one was stopped
+	 * while the element was not connected.
+	 */
+	protected replaceAdapter(adapter: IgniteAdapter<State, Event>): void {
+		if (adapter === this._adapter) {
+			return;
+		}
+		this._unsubscribe?.();
+		this._adapter = adapter;
+	}
+
 	private subscribeToAdapter(): void {
 		if (!this._adapter) {
 			return;
diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 4479722..2584d80 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,7 +160,7 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private readonly additionalArgs: AdditionalRenderArgs<
+				private additionalArgs: AdditionalRenderArgs<
 					State,
 					Event,
 					RenderArgs
@@ -173,6 +173,11 @@ export default function igniteElementFactory<
 				}
 
 				connectedCallback(): void {
+					const { adapter } = resolveSharedResources();
+					if (adapter !== this.adapter) {
+						this.replaceAdapter(adapter);
+						this.additionalArgs = resolveSharedAdditionalArgs(this);
+					}
 					sharedInstanceCount += 1;
 					super.connectedCallback();
 				}
@@ -203,7 +208,7 @@ export default function igniteElementFactory<
 		}
 
 		class IsolatedIgniteComponent extends IgniteElement<State, Event, View> {
-			private readonly additionalArgs: AdditionalRenderArgs<
+			private additionalArgs: AdditionalRenderArgs<
 				State,
 				Event,
 				RenderArgs
@@ -219,6 +224,17 @@ export default function igniteElementFactory<
 
 			private readonly renderImpl: (args: RenderArgs) => View;
 
+			connectedCallback(): void {
+				// The previous adapter was stopped on disconnect: start over.
+				if (!this.adapter) {
+					const adapter = createAdapter();
+					adapter.scope ??= StateScope.Isolated;
+					this.replaceAdapter(adapter);
+					this.additionalArgs = createAdditionalArgs(adapter, this);
+				}
+				super.connectedCallback();
+			}
+
 			protected renderView(): View {
 				return this.renderImpl({
 					...this.additionalArgs,
diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..ba5d79e 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -42,17 +42,16 @@ type AdapterEntry<State extends object> = {
 	adapter: IgniteAdapter<State, MobxEvent<State>>;
 	snapshot: () => State;
 	store: State;
+	isStopped: () => boolean;
 };
 
 export default function createMobXAdapter<State extends object>(
 	source: (() => State) | State,
 ): MobxAdapterFactory<State> {
 	if (isMobxObservable(source)) {
-		const entry = createAdapterEntryFromStore(
-			source as State,
-			StateScope.Shared,
+		return createSharedFactory(() =>
+			createAdapterEntryFromStore(source as State, StateScope.Shared),
 		);
-		return createSharedFactory(entry);
 	}
 
 	if (typeof source === "function") {
@@ -73,9 +72,15 @@ export default function createMobXAdapter<State extends object>(
 }
 
 function createSharedFactory<State extends object>(
-	entry: AdapterEntry<State>,
+	createEntry: () => AdapterEntry<State>,
 ): MobxAdapterFactory<State> {
-	const factory = (() => entry.adapter) as MobxAdapterFactory<State>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as MobxAdapterFactory<State>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.store;
@@ -229,5 +234,6 @@ function createAdapterEntryFromStore<State extends object>(
 		adapter,
 		snapshot,
 		store,
+		isStopped: () => isStopped,
 	};
 }
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 2c282c5..116d2e3 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -25,6 +25,7 @@ type AdapterEntry<State, Event, Snapshot, Actor> = {
 	adapter: IgniteAdapter<State, Event>;
 	snapshot: () => Snapshot;
 	actor: Actor;
+	isStopped?: () => boolean;
 };
 
 const adaptEvent = <State, DispatchEvent, Event>(
@@ -113,14 +114,15 @@ const buildAdapter = <
 };
 
 function createSharedFactory<State, Event, Snapshot, Actor>(
-	entry: AdapterEntry<State, Event, Snapshot, Actor>,
+	createEntry: () => AdapterEntry<State, Event, Snapshot, Actor>,
 ): AdapterFactory<State, Event, Snapshot, Actor> {
-	const factory = (() => entry.adapter) as AdapterFactory<
-		State,
-		Event,
-		Snapshot,
-		Actor
-	>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped?.()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as AdapterFactory<State, Event, Snapshot, Actor>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.actor;
@@ -204,15 +206,6 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreInstance>["State"];
 		type Event = InferStateAndEvent<StoreInstance>["Event"];
 
-		const adapter = adaptEvent<
-			State,
-			Parameters<StoreInstance["dispatch"]>[0],
-			Event
-		>(
-			buildAdapter(store, StateScope.Shared),
-			(event) => event as Parameters<StoreInstance["dispatch"]>[0],
-		);
-
 		const dispatch: ReduxStoreCommandActor<StoreInstance>["dispatch"] = (
 			event,
 		) =>
@@ -227,18 +220,38 @@ export default function createReduxAdapter<
 			) as ReduxStoreCommandActor<StoreInstance>["subscribe"],
 		};
 
-		const entry: AdapterEntry<
+		const createEntry = (): AdapterEntry<
 			State,
 			Event,
 			State,
 			ReduxStoreCommandActor<StoreInstance>
-		> = {
-			adapter,
-			snapshot: () => store.getState() as State,
-			actor,
+		> => {
+			let isStopped = false;
+			const adapter = adaptEvent<
+				State,
+				Parameters<StoreInstance["dispatch"]>[0],
+				Event
+			>(
+				buildAdapter(store, StateScope.Shared),
+				(event) => event as Parameters<StoreInstance["dispatch"]>[0],
+			);
+			const { stop } = adapter;
+
+			return {
+				adapter: {
+					...adapter,
+					stop() {
+						isStopped = true;
+						stop();
+					},
+				},
+				snapshot: () => store.getState() as State,
+				actor,
+				isStopped: () => isStopped,
+			};
 		};
 
-		return createSharedFactory(entry);
+		return createSharedFactory(createEntry);
 	}
 
 	if (isStoreFactory(source)) {
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..9147f23 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -46,6 +46,7 @@ type AdapterEntry<Machine extends AnyStateMachine> = {
 	snapshot: () => StateFrom<Machine>;
 	actor: XStateActorInstance<Machine>;
 	commandActor: XStateCommandActor<Machine>;
+	isStopped: () => boolean;
 };
 
 export default function createXStateAdapter<Machine extends AnyStateMachine>(
@@ -54,8 +55,9 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 	if (isXStateActor(source)) {
 		const actor = source as XStateActorInstance<Machine>;
 		actor.start();
-		const entry = createAdapterEntry(actor, StateScope.Shared, false);
-		return createSharedFactory(entry);
+		return createSharedFactory(() =>
+			createAdapterEntry(actor, StateScope.Shared, false),
+		);
 	}
 
 	const machine = source as Machine;
@@ -67,9 +69,15 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 }
 
 function createSharedFactory<Machine extends AnyStateMachine>(
-	entry: AdapterEntry<Machine>,
+	createEntry: () => AdapterEntry<Machine>,
 ): XStateAdapterFactory<Machine> {
-	const factory = (() => entry.adapter) as XStateAdapterFactory<Machine>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as XStateAdapterFactory<Machine>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.commandActor;
@@ -243,5 +251,6 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 		snapshot,
 		actor,
 		commandActor,
+		isStopped: () => isStopped,
 	};
 }
-- 
2.43.0


From d703ec6e1ea41373f676e56efacf7bda00b336ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:59 +0000
Subject: [PATCH 15/33] fix: finish a render before rendering a state change it
 caused

A state change raised while an element renders (a child emitting as it is
connected, a view correcting its state) started a nested render; the outer
render then continued with the older view and left stale or duplicated DOM.
Changes are now rendered once the running render is complete.
---
 src/IgniteElement.ts | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index a2c9147..9b1b6e1 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -2,6 +2,8 @@ import type IgniteAdapter from "./IgniteAdapter";
 import { StateScope } from "./IgniteAdapter";
 import type { RenderStrategy } from "./renderers/RenderStrategy";
 
+const MAX_RENDER_PASSES = 100;
+
 export default abstract class IgniteElement<
 	State,
 	Event,
@@ -14,6 +16,8 @@ export default abstract class IgniteElement<
 	private _isActive = false;
 	private _unsubscribe: (() => void) | undefined;
 	private _sendListener: ((event: globalThis.Event) => void) | undefined;
+	private _isRendering = false;
+	private _renderRequested = false;
 	private readonly strategy: RenderStrategy<View>;
 
 	constructor(
@@ -79,12 +83,32 @@ export default abstract class IgniteElement<
 			return;
 		}
 
-		this.strategy.render(
-			this.renderView({
-				state: this._currentState,
-				send: (event: Event) => this.send(event),
-			}),
-		);
+		// A render can itself change the state (a child that emits while it is being
+		// connected, for example): finish it first, then render the newer state.
+		this._renderRequested = true;
+		if (this._isRendering) {
+			return;
+		}
+
+		this._isRendering = true;
+		try {
+			for (let pass = 0; this._renderRequested && this._isActive; pass++) {
+				if (pass === MAX_RENDER_PASSES) {
+					throw new Error(
+						"[IgniteElement] Rendering keeps changing the state it renders.",
+					);
+				}
+				this._renderRequested = false;
+				this.strategy.render(
+					this.renderView({
+						state: this._currentState,
+						send: (event: Event) => this.send(event),
+					}),
+				);
+			}
+		} finally {
+			this._isRendering = false;
+		}
 	}
 
 	protected abstract renderView(props: {
-- 
2.43.0


From 6183189a038a4bf4b3426521d837ee9cd8638751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:17 +0000
Subject: [PATCH 16/33] fix: do not call Redux listeners after they
 unsubscribed

A listener removed while a dispatch is running was still called by that
dispatch, unlike with the XState and MobX adapters.
---
 src/adapters/ReduxAdapter.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 116d2e3..12c1865 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -70,7 +70,10 @@ const buildAdapter = <
 
 			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// A dispatch in progress still calls listeners removed during it.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 863e2c64bf4075e4739d34db5d302cb5383eec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:58 +0000
Subject: [PATCH 17/33] fix: load the config file in Vite builds, under a base
 path and on nested pages

The script was injected after Vite had processed the page, so production builds
shipped imports of source paths that do not exist there, and the dev server
resolved ./ignite.config.* against the page's URL.
---
 src/plugins/viteIgniteConfigPlugin.ts | 30 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 887b557..c121ab7 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -1,3 +1,4 @@
+import { existsSync } from "node:fs";
 import { relative, resolve, sep } from "node:path";
 import { resolveConfigFile } from "./configFile";
 
@@ -57,7 +58,7 @@ export function igniteConfigVitePlugin(
 			});
 	};
 
-	const transformIndexHtml = () => {
+	const transformIndexHtml = (_html?: string, page?: { path: string }) => {
 		if (!isValidPath(resolvedConfigPath)) {
 			console.warn("[ignite-element:vite-config] no config file found");
 			return;
@@ -65,7 +66,12 @@ export function igniteConfigVitePlugin(
 
 		const injectTo = options.injectTo ?? "head-prepend";
 
-		const importSpecifier = getImportSpecifier(resolvedConfigPath, projectRoot);
+		// "./" is relative to the page, so pages in subdirectories need "/@fs".
+		const inSubdirectory = /^\/.+\//.test(page?.path ?? "");
+		const importSpecifier = getImportSpecifier(
+			resolvedConfigPath,
+			inSubdirectory ? undefined : projectRoot,
+		);
 
 		if (!importSpecifier) {
 			console.warn(
@@ -75,14 +81,17 @@ export function igniteConfigVitePlugin(
 			return;
 		}
 
-		const loadHelperSpecifier = projectRoot
-			? toFileSystemPath(
-					resolve(
-						projectRoot,
-						"node_modules/ignite-element/dist/config/loadIgniteConfig.es.js",
-					),
+		const loadHelperPath = projectRoot
+			? resolve(
+					projectRoot,
+					"node_modules/ignite-element/dist/config/loadIgniteConfig.es.js",
 				)
+			: undefined;
+		const loadHelperSpecifier = loadHelperPath
+			? toFileSystemPath(loadHelperPath)
 			: DEFAULT_LOAD_HELPER_SPECIFIER;
+		// Vite cannot process an import of a helper that is not installed here.
+		const ignored = loadHelperPath !== undefined && !existsSync(loadHelperPath);
 
 		const loadHelperImport = JSON.stringify(loadHelperSpecifier);
 		const configModuleImport = JSON.stringify(importSpecifier);
@@ -92,7 +101,7 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 		const tags = [
 			{
 				tag: "script",
-				attrs: { type: "module" },
+				attrs: { type: "module", ...(ignored ? { "vite-ignore": true } : {}) },
 				children: script,
 				injectTo,
 			},
@@ -101,13 +110,14 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 		return tags;
 	};
 
+	// "pre" lets Vite process the imports of the injected script.
 	const enforce: "pre" = "pre";
 
 	const plugin = {
 		name: "ignite-element:vite-config",
 		enforce,
 		configResolved,
-		transformIndexHtml,
+		transformIndexHtml: { order: enforce, handler: transformIndexHtml },
 	};
 
 	return plugin;
-- 
2.43.0


From 4e35d4e2f8b464184e268f1af0c78d90f7447342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:15 +0000
Subject: [PATCH 18/33] fix: share configured styles between copies of the
 package

The config and the renderer registry live on globalThis so that separately
bundled entry points agree, but the stylesheet a config names did not: an
element from another copy (e.g. Vite's pre-bundled one) never received it.
---
 src/globalStyles.ts | 11 ++++++++---
 src/injectStyles.ts | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/globalStyles.ts b/src/globalStyles.ts
index 5434edc..f4163e1 100644
--- a/src/globalStyles.ts
+++ b/src/globalStyles.ts
@@ -6,7 +6,12 @@ export interface StyleObject {
 
 export type GlobalStyles = string | StyleObject | undefined;
 
-let globalStyles: GlobalStyles;
+// Shared by every copy of the package on the page, like the config itself.
+const GLOBAL_STYLES_SYMBOL = Symbol.for("ignite-element.globalStyles");
+
+const registry = globalThis as typeof globalThis & {
+	[GLOBAL_STYLES_SYMBOL]?: GlobalStyles;
+};
 
 export function setGlobalStyles(style: GlobalStyles): void {
 	if (Array.isArray(style)) {
@@ -14,9 +19,9 @@ export function setGlobalStyles(style: GlobalStyles): void {
 			"setGlobalStyles does not accepts arrays. Provide a single string or StyleObject.",
 		);
 	}
-	globalStyles = style;
+	registry[GLOBAL_STYLES_SYMBOL] = style;
 }
 
 export function getGlobalStyles(): GlobalStyles {
-	return globalStyles;
+	return registry[GLOBAL_STYLES_SYMBOL];
 }
diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 5e6748e..8d50a29 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -1,10 +1,24 @@
 /// <reference lib="es2021.weakref" />
 import { getGlobalStyles } from "./globalStyles";
 
-// Global caches
-const shadowRootCache = new WeakMap<ShadowRoot, Set<string>>();
-const initializedRoots = new WeakSet<ShadowRoot>();
-const pendingRoots = new Set<WeakRef<ShadowRoot>>();
+type StyledRoots = {
+	shadowRootCache: WeakMap<ShadowRoot, Set<string>>;
+	initializedRoots: WeakSet<ShadowRoot>;
+	pendingRoots: Set<WeakRef<ShadowRoot>>;
+};
+
+// Global caches, shared by every copy of the package on the page
+const STYLED_ROOTS_SYMBOL = Symbol.for("ignite-element.styledRoots");
+const registry = globalThis as typeof globalThis & {
+	[STYLED_ROOTS_SYMBOL]?: StyledRoots;
+};
+registry[STYLED_ROOTS_SYMBOL] ??= {
+	shadowRootCache: new WeakMap(),
+	initializedRoots: new WeakSet(),
+	pendingRoots: new Set(),
+};
+const { shadowRootCache, initializedRoots, pendingRoots } =
+	registry[STYLED_ROOTS_SYMBOL];
 const collectedRoots = new FinalizationRegistry<WeakRef<ShadowRoot>>((ref) => {
 	pendingRoots.delete(ref);
 });
-- 
2.43.0


From 079192430495614736ee977702725e4366f81340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:27 +0000
Subject: [PATCH 19/33] fix: fail the beta release when input ends at the OTP
 prompt

The script exited 0 without publishing.
---
 scripts/release-beta.mjs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 7111524..07f843a 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -73,10 +73,22 @@ const resolveOtp = async () => {
 	}
 
 	const rl = createInterface({ input: stdin, output: stdout });
+	const inputEnded = new Promise((_resolve, reject) => {
+		rl.once("close", () => {
+			reject(
+				new Error(
+					"Input ended at the one-time password prompt. Pass --otp or --skip-otp.",
+				),
+			);
+		});
+	});
 	const answer = (
-		await rl.question(
-			"[release:beta] Enter npm one-time password (leave blank to skip): ",
-		)
+		await Promise.race([
+			rl.question(
+				"[release:beta] Enter npm one-time password (leave blank to skip): ",
+			),
+			inputEnded,
+		])
 	).trim();
 	await rl.close();
 	return answer || undefined;
-- 
2.43.0


From 7a10cca405d2532ac5ede22d4bce14d8f5b0290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 20/33] fix: check the environment before creating an npm token

With GITHUB_TOKEN or REPO_NAME missing, a live publish token was created and
then dropped.
---
 scripts/refresh-npm-token.js | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 41d690b..68257b3 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -12,13 +12,6 @@ export default async function refreshNpmToken() {
 			}),
 		);
 
-		// Generate a new NPM token
-		console.log("🔑 Generating a new NPM token...");
-		const newToken = execSync("npm token create --read-only --publish", {
-			encoding: "utf8",
-		}).trim();
-		console.log("✅ New token generated successfully.");
-
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
 		const repo = process.env.REPO_NAME;
@@ -32,6 +25,13 @@ export default async function refreshNpmToken() {
 			);
 		}
 
+		// Generate a new NPM token
+		console.log("🔑 Generating a new NPM token...");
+		const newToken = execSync("npm token create --read-only --publish", {
+			encoding: "utf8",
+		}).trim();
+		console.log("✅ New token generated successfully.");
+
 		// Update the token in GitHub Secrets
 		console.log("🔄 Updating token in GitHub Secrets...");
 		const response = await fetch(
-- 
2.43.0


From 4bcb49b6c45dccadad30c14922bf6872a3e195cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 21/33] fix: keep the names of CSS custom properties as written

---
 src/renderers/jsx/renderer.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 2df5eb2..3c7e6f9 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -625,6 +625,8 @@ function normalizeSvgAttributeName(name: string): string {
 }
 
 function toKebabCase(value: string): string {
+	// Custom properties are case-sensitive.
+	if (value.startsWith("--")) return value;
 	return value.replace(/([A-Z])/g, "-$1").toLowerCase();
 }
 
-- 
2.43.0


From 4df7b11bc3568612a21e9a5c3398bf905625b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 22/33] fix: write camel-case SVG attributes under their real
 names

---
 src/renderers/jsx/renderer.ts | 53 +++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 3c7e6f9..138b547 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -18,6 +18,59 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"startOffset",
 	"textLength",
 	"lengthAdjust",
+	"attributeName",
+	"attributeType",
+	"baseFrequency",
+	"baseProfile",
+	"calcMode",
+	"contentScriptType",
+	"contentStyleType",
+	"diffuseConstant",
+	"edgeMode",
+	"externalResourcesRequired",
+	"filterRes",
+	"filterUnits",
+	"glyphRef",
+	"gradientTransform",
+	"kernelMatrix",
+	"kernelUnitLength",
+	"keyPoints",
+	"keySplines",
+	"keyTimes",
+	"limitingConeAngle",
+	"markerHeight",
+	"markerUnits",
+	"markerWidth",
+	"maskContentUnits",
+	"maskUnits",
+	"numOctaves",
+	"pathLength",
+	"patternContentUnits",
+	"patternTransform",
+	"pointsAtX",
+	"pointsAtY",
+	"pointsAtZ",
+	"preserveAlpha",
+	"primitiveUnits",
+	"refX",
+	"refY",
+	"repeatCount",
+	"repeatDur",
+	"requiredExtensions",
+	"requiredFeatures",
+	"specularConstant",
+	"specularExponent",
+	"stdDeviation",
+	"stitchTiles",
+	"surfaceScale",
+	"systemLanguage",
+	"tableValues",
+	"targetX",
+	"targetY",
+	"viewTarget",
+	"xChannelSelector",
+	"yChannelSelector",
+	"zoomAndPan",
 ]);
 
 // Properties whose content attribute has a different name.
-- 
2.43.0


From 2a8d1476b16ea84438588a292081d00ae833245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 23/33] fix: write declared values that equal the default of
 progress, meter and li

---
 src/renderers/jsx/renderer.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 138b547..4a97a1b 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -616,8 +616,12 @@ function applyProperty(
 	value: unknown,
 	prev: unknown,
 ): void {
-	const isOption = element instanceof HTMLOptionElement;
-	if ((key === "value" && !isOption) || key === "checked") {
+	const hasLiveValue =
+		element instanceof HTMLInputElement ||
+		element instanceof HTMLTextAreaElement ||
+		element instanceof HTMLSelectElement ||
+		element.localName.includes("-");
+	if ((key === "value" && hasLiveValue) || key === "checked") {
 		const current = Reflect.get(element, key);
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
 			Reflect.set(element, key, value);
-- 
2.43.0


From 990898356c648e5bc2abcf1da7157e92c101ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 24/33] fix: drop the old style value when the new one is
 invalid

---
 src/renderers/jsx/renderer.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 4a97a1b..ef84ea5 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -502,18 +502,18 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		const prevObj = prev as Record<string, unknown>;
 		const nextObj = next as Record<string, unknown>;
 
-		for (const key of Object.keys(prevObj)) {
-			if (!(key in nextObj)) {
+		// Everything that changed is dropped before anything is set: an invalid
+		// value is ignored when set and must not leave the old one behind, and a
+		// dropped longhand must not take part of a kept shorthand with it.
+		for (const [key, value] of Object.entries(prevObj)) {
+			if (nextObj[key] == null || String(nextObj[key]) !== String(value)) {
 				style.removeProperty(toKebabCase(key));
 			}
 		}
 
 		for (const [key, value] of Object.entries(nextObj)) {
 			const cssProperty = toKebabCase(key);
-			if (value == null) {
-				style.removeProperty(cssProperty);
-				continue;
-			}
+			if (value == null) continue;
 			const nextValue = String(value);
 			if (style.getPropertyValue(cssProperty) !== nextValue) {
 				style.setProperty(cssProperty, nextValue);
-- 
2.43.0


From f2c3accfdeb1266c434e8c51af138f8bead9859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 25/33] fix: honour text given for draggable, spellcheck and
 translate

---
 src/renderers/jsx/renderer.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ef84ea5..a1d71c5 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -73,6 +73,10 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"zoomAndPan",
 ]);
 
+// Enumerated attributes whose property is a boolean: the text "false" or "no"
+// has to reach the attribute, the property would take any text as true.
+const ENUMERATED_BOOLEANS = new Set(["draggable", "spellcheck", "translate"]);
+
 // Properties whose content attribute has a different name.
 const PROPERTY_ATTRIBUTE_NAMES: Record<string, string> = {
 	htmlFor: "for",
@@ -482,7 +486,10 @@ function patchProps(
 			continue;
 		}
 
-		if (!isSvgElement && key in element && key !== "list") {
+		const isAttributeOnly =
+			key === "list" ||
+			(typeof next === "string" && ENUMERATED_BOOLEANS.has(key));
+		if (!isSvgElement && key in element && !isAttributeOnly) {
 			applyProperty(element as HTMLElement, key, next, prev);
 			continue;
 		}
@@ -630,8 +637,13 @@ function applyProperty(
 	}
 
 	// A newly declared prop is always written: the element may already report the
-	// same value as its default without carrying the attribute.
-	const isNew = prev === undefined || prev === null || prev === false;
+	// same value as its default without carrying the attribute. So is one that was
+	// given as text before, which may have gone to the attribute only.
+	const isNew =
+		prev === undefined ||
+		prev === null ||
+		prev === false ||
+		typeof prev !== typeof value;
 	if (isNew || Reflect.get(element, key) !== value) {
 		if (!Reflect.set(element, key, value)) {
 			// Read-only property (e.g. `form`): fall back to the attribute.
-- 
2.43.0


From 5216e7e097a279133edd3a26d0127612743a60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 26/33] fix: do not observe other elements' stores while
 notifying MobX listeners

---
 src/adapters/MobxAdapter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index ba5d79e..6e136fc 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,5 @@
 import type { IReactionDisposer } from "mobx";
-import { autorun, toJS } from "mobx";
+import { autorun, toJS, untracked } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -150,7 +150,8 @@ function createAdapterEntryFromStore<State extends object>(
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
+			// What listeners read (other elements' stores, say) is not ours to observe.
+			untracked(() => notifyListeners(snapshot));
 		});
 	}
 
-- 
2.43.0


From 4fef2c210a0b963bb6bb51f9f10a687efc125b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 27/33] fix: keep content given by a property when it takes the
 place of children

---
 src/renderers/jsx/renderer.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index a1d71c5..8640ffa 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -305,6 +305,15 @@ function patchNode(
 	const elementNode = domNode as Element & ParentNode;
 	const previousOptions = describeOptions(elementNode);
 
+	// Children that all go make room first: the content may now be given by a
+	// property (innerHTML, textContent) instead.
+	let oldChildren = oldNode.children;
+	if (oldChildren.length > 0 && newNode.children.length === 0) {
+		onFallbackReplace?.("child-order-change");
+		elementNode.replaceChildren();
+		oldChildren = [];
+	}
+
 	patchProps(elementNode, oldNode.props, newNode.props);
 
 	const childNamespace =
@@ -321,7 +330,7 @@ function patchNode(
 	if (
 		!patchChildren(
 			elementNode,
-			oldNode.children,
+			oldChildren,
 			mappedChildren,
 			onFallbackReplace,
 		)
-- 
2.43.0


From 815a34a61dc5c336130f7ac224cbd9382452aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 28/33] fix: remove the attribute of an ARIA property that is
 no longer declared

---
 src/renderers/jsx/renderer.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 8640ffa..dc46532 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -611,7 +611,9 @@ function removeProp(
 			!element.localName.includes("-") &&
 			typeof Reflect.get(element, key) === "string";
 		try {
-			Reflect.set(element, key, isBuiltInString ? "" : undefined);
+			// ARIA properties are absent when null, "" would leave the attribute.
+			const empty = key.startsWith("aria") ? null : "";
+			Reflect.set(element, key, isBuiltInString ? empty : undefined);
 		} catch {
 			// Constrained numeric properties reject undefined; dropping the
 			// attribute below restores their default.
-- 
2.43.0


From 8c12f03bafe4ac879d3afe6192ab28057d0e7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:37 +0000
Subject: [PATCH 29/33] fix: write a changed prop although the element already
 reports its value

---
 src/renderers/jsx/renderer.ts | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index dc46532..8758f17 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -499,7 +499,7 @@ function patchProps(
 			key === "list" ||
 			(typeof next === "string" && ENUMERATED_BOOLEANS.has(key));
 		if (!isSvgElement && key in element && !isAttributeOnly) {
-			applyProperty(element as HTMLElement, key, next, prev);
+			applyProperty(element as HTMLElement, key, next);
 			continue;
 		}
 
@@ -632,7 +632,6 @@ function applyProperty(
 	element: HTMLElement,
 	key: string,
 	value: unknown,
-	prev: unknown,
 ): void {
 	const hasLiveValue =
 		element instanceof HTMLInputElement ||
@@ -647,19 +646,12 @@ function applyProperty(
 		return;
 	}
 
-	// A newly declared prop is always written: the element may already report the
-	// same value as its default without carrying the attribute. So is one that was
-	// given as text before, which may have gone to the attribute only.
-	const isNew =
-		prev === undefined ||
-		prev === null ||
-		prev === false ||
-		typeof prev !== typeof value;
-	if (isNew || Reflect.get(element, key) !== value) {
-		if (!Reflect.set(element, key, value)) {
-			// Read-only property (e.g. `form`): fall back to the attribute.
-			element.setAttribute(key, String(value));
-		}
+	// The declared value changed, so it is written whatever the element reports:
+	// that can be a default it carries no attribute for, or what it made of the
+	// previous value (clamped, canonicalised).
+	if (!Reflect.set(element, key, value)) {
+		// Read-only property (e.g. `form`): fall back to the attribute.
+		element.setAttribute(key, String(value));
 	}
 }
 
-- 
2.43.0


From 1ba90fd23c7a6d3e3055001194dfd4bb037945a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 30/33] fix: tell a Redux listener what becomes of an event it
 sends on subscribing

---
 src/adapters/ReduxAdapter.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 12c1865..c44987f 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -68,7 +68,6 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
 				// A dispatch in progress still calls listeners removed during it.
 				if (unsubscribers.has(unsubscribe)) {
@@ -85,6 +84,14 @@ const buildAdapter = <
 
 			unsubscribers.add(unsubscribe);
 
+			// Last, because the listener may send: it must hear what comes of it.
+			try {
+				listener(store.getState());
+			} catch (error) {
+				unsubscribe();
+				throw error;
+			}
+
 			return {
 				unsubscribe,
 			};
-- 
2.43.0


From f8b66d7fef2bdda7a9414fb7d46c608e48764f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:57 +0000
Subject: [PATCH 31/33] fix: tell a MobX listener what becomes of an event it
 sends on subscribing

---
 src/adapters/MobxAdapter.ts | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 6e136fc..5dbfc89 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -166,25 +166,28 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			const wasRunning = disposer !== null;
-			listeners.add(listener);
-			ensureAutorun();
+			const unsubscribe = () => {
+				if (isStopped) {
+					return;
+				}
+				listeners.delete(listener);
+				if (!listeners.size) {
+					cleanupAutorun();
+				}
+			};
 
-			if (wasRunning) {
+			// Observe first: what a listener sends on its first call must reach it too.
+			ensureAutorun();
+			listeners.add(listener);
+			lastSnapshot = untracked(cloneState);
+			try {
 				listener(lastSnapshot);
+			} catch (error) {
+				unsubscribe();
+				throw error;
 			}
 
-			return {
-				unsubscribe: () => {
-					if (isStopped) {
-						return;
-					}
-					listeners.delete(listener);
-					if (!listeners.size) {
-						cleanupAutorun();
-					}
-				},
-			};
+			return { unsubscribe };
 		},
 		send(event) {
 			if (isStopped) {
-- 
2.43.0


From 440903c85108df57713e24d2d461fa37bda2676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:12 +0000
Subject: [PATCH 32/33] fix: keep npm's output out of the error when creating a
 token fails

---
 scripts/refresh-npm-token.js | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 68257b3..73b8288 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -27,9 +27,15 @@ export default async function refreshNpmToken() {
 
 		// Generate a new NPM token
 		console.log("🔑 Generating a new NPM token...");
-		const newToken = execSync("npm token create --read-only --publish", {
-			encoding: "utf8",
-		}).trim();
+		let newToken;
+		try {
+			newToken = execSync("npm token create --read-only --publish", {
+				encoding: "utf8",
+			}).trim();
+		} catch (error) {
+			// The original error carries npm's output, which may hold the token.
+			throw new Error(error.message);
+		}
 		console.log("✅ New token generated successfully.");
 
 		// Update the token in GitHub Secrets
-- 
2.43.0


From e7692801e9a9b86823f7a3aa93ea067002f05ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:17 +0000
Subject: [PATCH 33/33] fix: honour the diffing opt-out of elements that get
 their attributes after construction

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 39 ++++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index ffd2394..89f396a 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -50,22 +50,6 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		root.setAttribute("data-ignite-jsx-root", "");
 		host.appendChild(root);
 		this.contentRoot = root;
-
-		const hostElement = (host as ShadowRoot & { host?: Element }).host;
-		const tagName = hostElement?.tagName?.toLowerCase();
-		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
-		if (
-			hostElement?.hasAttribute?.("data-ignite-nodiff") ||
-			hostElement?.hasAttribute?.("data-ignite-hydrated") ||
-			isDenylistedHost
-		) {
-			this.forceReplace = true;
-			this.forceReplaceReason = isDenylistedHost
-				? `denylist:${tagName}`
-				: hostElement?.hasAttribute?.("data-ignite-hydrated")
-					? "hydrated"
-					: "nodiff-attr";
-		}
 	}
 
 	render(view: IgniteJsxChild): void {
@@ -74,6 +58,7 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 				"[IgniteJsxRenderStrategy] Cannot render before attach has been invoked.",
 			);
 		}
+		this.detectOptOut(this.contentRoot);
 
 		const mode = this.forceReplace || !this.diffEnabled ? "replace" : this.mode;
 		const forceReason =
@@ -110,6 +95,28 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		this.previousTree = null;
 	}
 
+	// Read at render time: a custom element has no attributes yet while its
+	// constructor attaches the strategy.
+	private detectOptOut(contentRoot: HTMLElement): void {
+		const hostElement = (contentRoot.getRootNode() as ShadowRoot).host;
+		const tagName = hostElement?.tagName?.toLowerCase();
+		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
+		const isHydrated = hostElement?.hasAttribute?.("data-ignite-hydrated");
+		this.forceReplace =
+			isDenylistedHost ||
+			Boolean(isHydrated) ||
+			Boolean(hostElement?.hasAttribute?.("data-ignite-nodiff"));
+		if (!this.forceReplace) {
+			this.forceReplaceReason = null;
+			return;
+		}
+		this.forceReplaceReason = isDenylistedHost
+			? `denylist:${tagName}`
+			: isHydrated
+				? "hydrated"
+				: "nodiff-attr";
+	}
+
 	private getHostTag(): string | null {
 		const host = (this.contentRoot?.getRootNode() as ShadowRoot | null)?.host;
 		return host?.tagName?.toLowerCase() ?? null;
-- 
2.43.0

