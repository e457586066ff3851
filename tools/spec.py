#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/spec.py (writes both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state))

JSX = "src/renderers/jsx/renderer.ts"
FAC = "src/IgniteElementFactory.ts"
ELT = "src/IgniteElement.ts"
CCF = "src/createComponentFactory.ts"
AX, AR, AM = "src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts"

prop("C01", "After every render the DOM is exactly the current view",
 "With the Ignite JSX renderer, after each render of a component its rendered content - elements, namespaces, attributes, text, child order and declared form-control state - equals what the current view describes, no matter which views were rendered before. Nothing that an earlier view declared and the current one does not (attribute, class, style property, text or node) remains, and a re-rendered tree is indistinguishable from a fresh render of the same view.",
 ["histories", "inputs"], "every sequence of views over HTML/SVG elements, fragments, function components, primitives, conditional children and props of any JSON-like type",
 "a test renders a handful of view pairs; the diff must be right for every pair of views after every earlier history",
 [JSX, "src/renderers/jsx/jsx-runtime.ts", "src/renderers/jsx/IgniteJsxRenderStrategy.ts"],
 [("diffing renderer and prop application", JSX), ("render strategy entry", "src/renderers/jsx/IgniteJsxRenderStrategy.ts")],
 ["content root of the shadow DOM after every render"],
 "runtime monitor: independent reference renderer compared with the live DOM after each render of random view histories",
 "generated view grammar (about 35 tags, all prop kinds) and jsdom's DOM; excluded domain listed in DESIGN.md")
prop("C02", "An event runs exactly the handlers the current view declares",
 "With the Ignite JSX renderer, dispatching an event on a rendered element calls each handler the current view declares for that event on that element (and, when it bubbles, on its ancestors) exactly once, and never a handler of an earlier view. This also holds when a handler itself causes the view to be rendered again.",
 ["histories", "schedules"], "every view history that adds, replaces, shares and removes handlers, and every moment an event is dispatched",
 "stale or doubled listeners appear only after particular add/replace/remove sequences",
 [JSX], [("event listener bookkeeping", JSX)], ["calls of instrumented handlers"],
 "runtime monitor: exactly-once handler log against the view's declaration, every element x event dispatched after each render",
 "random histories; two props that name the same event on one element are outside the domain")
prop("C03", "Updating a view keeps nodes, focus and what the user entered",
 "With the Ignite JSX renderer in its default (diffing) mode, an update that changes only attributes, text, handlers or appends children keeps every existing node the same object: focus, caret, typed text, checks and picks the view does not itself change, and the identity and lifecycle of child custom elements. Content outside a container whose child list changed structure is likewise left alone, and rendering an equal view changes nothing.",
 ["histories", "inputs"], "every view tree, every user interaction before the update, and every set of in-place edits",
 "each test looks at one widget and one edit; loss depends on the combination of tree, edit and user state",
 [JSX, "src/renderers/jsx/IgniteJsxRenderStrategy.ts"], [("patching and container reuse decisions", JSX)], ["node identity, activeElement, selection, form state, MutationObserver records"],
 "runtime monitor: identity, focus, caret and lifecycle watched across random updates",
 "jsdom focus and selection semantics; reordering children may re-create them and is not claimed")
prop("C04", "Update mode never changes what is displayed",
 "The Ignite JSX renderer displays the same content for the same view history under every update mode: configured diffing or replacement, globally disabled diffing, elements opted out by attribute or by tag list, hydrated elements, and every logging level. Elements opted out of diffing are rebuilt on every render, and the logging level controls only what is written to the console.",
 ["configurations", "histories"], "every update mode and logging level crossed with every view history",
 "modes multiply with histories; tests pin one history per mode",
 ["src/renderers/jsx/IgniteJsxRenderStrategy.ts", "src/renderers/jsx/noDiffDenylist.ts", JSX, "src/config.ts"],
 [("choice between patching and replacing", "src/renderers/jsx/IgniteJsxRenderStrategy.ts"), ("opt-out list", "src/renderers/jsx/noDiffDenylist.ts")],
 ["DOM and node identity of sibling roots, console output"],
 "runtime monitor: differential execution of one history under eight modes",
 "eight modes x three logging levels over random histories")
prop("C05", "Connected elements always show their source's current state",
 "Whenever no code is running, every connected element - first connection, reconnected or moved; Ignite JSX or Lit - displays what its view yields for the current state of its XState, Redux or MobX source, for state values of any shape including falsy ones. This holds whichever route changed the state: element events, render arguments, commands, direct changes to a user's own source, changes made while an element renders, or changes that arrive later.",
 ["histories", "schedules", "inputs"], "every history of lifecycle steps and state changes over all source kinds, both renderers and all state shapes",
 "staleness needs a particular interleaving of connection, change and route; tests exercise each once",
 [ELT, FAC, AX, AR, AM, CCF], [("render on notification and on connect", ELT), ("adapter notifications", AX), ("element registration and adapter creation", FAC)],
 ["shadow DOM text versus the real source's own state at quiescent points"],
 "runtime monitor: model/truth/screen comparison at every quiescent point of random histories",
 "bounded histories (up to 40 steps, 9 elements); a view that changes state on every pass is stopped by the library after 100 passes")
prop("C06", "Elements built from a blueprint are isolated from each other",
 "When a component is built from a blueprint - an XState machine, a Redux slice or a function returning a Redux or MobX store - every element has its own private state starting at the blueprint's initial state. No event, command, connection or removal of one element changes the state or display of another, including elements of the same tag, of other tags from the same definition, and ones that are reconnected.",
 ["histories"], "every history of operations on any number of sibling elements",
 "accidental sharing shows only in particular creation and removal orders",
 [FAC, CCF, "src/IgniteCore.ts", AX, AR, AM], [("isolated adapter per element", FAC), ("source kind detection", "src/IgniteCore.ts")],
 ["each element's private source and shadow DOM after every step"],
 "runtime monitor: non-interference checked after every step of random multi-element histories",
 "up to 9 elements per history")
prop("C07", "Elements on one shared source stay consistent with it",
 "Elements built on a source the user created - a running or not yet started XState actor, a Redux store or a MobX store - all act on and display that one source: an operation through any element is applied to it exactly once, is visible in every connected element of every tag and definition using the source, and survives the removal of the element that made it.",
 ["histories"], "every history of operations and lifecycle steps over any number of elements and definitions sharing a source",
 "lost or doubled updates depend on how many elements, tags and definitions are attached and in which order they come and go",
 [FAC, CCF, AX, AR, AM], [("shared adapter and reference counting", FAC)],
 ["the user's own source and every element's shadow DOM after every step"],
 "runtime monitor: exactly-once effect and mutual consistency against an executable model",
 "up to 9 elements, 2 tags, 2 definitions per history")
prop("C08", "Subscriptions never outlive or outnumber connected elements",
 "At every quiescent point the subscriptions held on a state source are no more than the elements that use it, at least one while any element is connected, and none once every element that was connected has left the document; an element that has left does not render or change its content. This holds for any order of connecting, removing, moving and reinserting, and subscriptions the user made themselves are left alone.",
 ["histories"], "every order of element creation, connection, movement and removal",
 "a leak is invisible to output-based tests and accumulates only over churn",
 [ELT, FAC, AX, AR, AM], [("unsubscribe on disconnect", ELT), ("adapter teardown", FAC)],
 ["spies on the real libraries' subscribe/unsubscribe and observation hooks"],
 "runtime monitor: subscription accounting by spies on the real sources under lifecycle churn",
 "elements created but never connected are outside the claim")
prop("C09", "Ignite stops what it started and never the user's own source",
 "A private source Ignite created for an element is started once, runs as long as the element is connected and is stopped exactly once when the element leaves. A source the user supplied is never stopped or otherwise ended, whatever elements come and go, and it keeps accepting changes afterwards.",
 ["histories"], "every lifecycle history over all source kinds and cleanup settings",
 "double stops and foreign stops depend on reference counts over histories",
 [FAC, AX, AR, AM], [("shared/isolated cleanup", FAC), ("actor ownership", AX)],
 ["start/stop events observed inside the real sources"],
 "runtime monitor: start/stop conservation per source instance",
 "bounded histories")
prop("C10", "Removed and reinserted or moved elements work again",
 "An element that is removed from the document and inserted again, or moved within it, any number of times and in any combination with other elements coming and going, ends up fully working: it displays its source's current state and its events, render arguments and commands take effect exactly as on first connection. An element on a blueprint starts from the initial state again, and one on a shared source shows the shared state.",
 ["histories"], "every sequence of removals, insertions and moves of any subset of elements",
 "only the full product of orders and source kinds reveals dead or half-connected elements",
 [ELT, FAC], [("revival on connect", FAC), ("connected/disconnected callbacks", ELT)],
 ["effects of every route on returned elements"],
 "runtime monitor: every route exercised on returned elements and judged against the model",
 "bounded histories")
prop("C11", "Adapters deliver every change to exactly the live listeners",
 "An adapter gives a new listener the current state at once and then exactly one notification per change of its source carrying the state of that moment, to every listener still subscribed and to none that has unsubscribed - also when listeners unsubscribe, or send events, during a notification. After it is stopped it delivers nothing, ignores events, and its state keeps reading as the last one.",
 ["histories", "schedules"], "every interleaving of subscribe, unsubscribe, send, direct change, batch, stop and use-after-stop over all adapter kinds",
 "ordering and after-stop faults need particular interleavings",
 [AX, AR, AM, "src/IgniteAdapter.ts"], [("subscription bookkeeping", AX), ("subscription bookkeeping", AR), ("subscription bookkeeping", AM)],
 ["log of all deliveries with the source's state at delivery"],
 "runtime monitor: online delivery-trace checker over random adapter histories",
 "synchronous sources; listener exceptions are not covered")
prop("C12", "Derived values and commands belong to the right element and moment",
 "In every render the view receives the values the user's derivation yields for the current state - present even when falsy or undefined - together with state and send, and commands that act on the very element and source they were handed to. Commands pass arguments and results through unchanged, are set up once per connection, and keep addressing their own element when they finish asynchronously.",
 ["histories", "inputs"], "every derivation, command set, state history and number of elements over all source kinds",
 "caching and binding mistakes show only with several elements and particular histories",
 [CCF, "src/RenderArgs.ts"], [("facade resolution and caching", CCF)],
 ["arguments views receive, hosts and sources commands touch"],
 "runtime monitor: independent recomputation of derivations and binding checks each render",
 "derivations with a fixed key set")
prop("C13", "Declared events are emitted once, as declared; others are refused",
 "Emitting an event the component declared dispatches exactly one bubbling, composed custom event of that name from the element itself with the given payload untouched, wherever the element sits, and emitting any name that was not declared throws and dispatches nothing. Names and payloads of every type behave alike.",
 ["inputs", "configurations"], "every set of declared names, every emitted name and payload, and every position of the element",
 "tests emit a few friendly names; the guard must hold for every name",
 [CCF, "src/events.ts"], [("emit guard and dispatch", CCF)],
 ["events recorded at the element, across shadow boundaries and at the document"],
 "runtime monitor: event log at host, ancestors and document compared with declaration",
 "names drawn from ordinary, empty-ish, unicode and Object.prototype names")
prop("C14", "Each sent event reaches the source once and unchanged",
 "Every event sent through an element - by its render arguments or as a send DOM event dispatched on it or bubbling out of its content - reaches the element's source exactly once, as the same value and in the order sent, across any number of disconnections, reinsertions and moves; events sent to an element that is not connected reach nothing.",
 ["histories"], "every interleaving of sends through all routes with lifecycle steps",
 "duplicate listeners after reconnection and lost first events need lifecycle histories",
 [ELT, FAC], [("send event listener", ELT)],
 ["what a recording source receives"],
 "runtime monitor: exactly-once, in-order delivery log at the source",
 "bounded histories")
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOT_APPLICABLE = []

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]: a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [
        {"property": p["id"], "quick_cmd": f"node harness/run.mjs {p['id']} --tier quick",
         "thorough_cmd": f"node harness/run.mjs {p['id']} --tier thorough",
         "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
