import fs from 'node:fs';
const P=[];
const p=(id,title,statement,over,text,why,files,mechanism,state=[],observe=[])=>P.push({id,title,statement,quantifier:{over,text},why_tests_cant:why,anchors:{files,mechanism:mechanism.map(([name,where])=>({name,where})),...(state.length?{state:state.map(([name,meaning,where])=>({name,meaning,where}))}:{}),...(observe.length?{observe_at:observe}:{})}});

p('C01','Every scheduled update settles exactly once',
 'Each update handle returned by scheduling settles its `finished` promise exactly once: it resolves only after the commits of its batch have run, and it rejects with the very error thrown by rendering, a middleware, a commit, a user commit handler or the host when any of those fails. A failing batch never prevents later batches from being rendered, committed and settled, and never leaves its own updates in the batch or its lanes in effect.',
 ['histories','fault_sequences','schedules'],'all sequences of scheduled updates, all points at which user or host code may throw or reject',
 'tests inject a handful of errors at single points; the quantifier is over every exit path of the flush loop',
 ['src/runtime.ts'],[['flush loop with try/catch/finally around one batch','src/runtime.ts Runtime._flush'],['promise controller created per update','src/runtime.ts Runtime.schedule']],
 [['update batch','updates rendered together','src/runtime.ts'],['flush lanes','lanes of the batch in progress; also the busy flag','src/runtime.ts']],['UpdateHandle.finished','step()']);

p('C02','One flush at a time, and no update is lost',
 'At most one flush is in progress per runtime, and while one is in progress (also across its awaits) no second one starts. Every scheduled update is either covered by an already requested or already delivered host callback for all of its lanes, or requests exactly one callback itself, so it is eventually taken by a flush; lanes stop counting as requested only when their callback runs and as delivered only when the queue is empty.',
 ['schedules','histories'],'all interleavings of scheduling with host callbacks, microtasks and awaits inside a flush',
 'tests run a few hand-picked interleavings with fake adapters',
 ['src/runtime.ts'],[['pending/staged lane masks and busy flag','src/runtime.ts Runtime.schedule, Runtime._flush']],
 [['pending lanes','lanes for which a callback is requested','src/runtime.ts'],['staged lanes','lanes whose callback has run','src/runtime.ts']],['HostAdapter.requestCallback','queueMicrotask']);

p('C03','A batch commits exactly once, in the mode of its update',
 'A batch containing a synchronous update commits without waiting for anything; otherwise an update carrying a commit handler forms a batch of its own and is committed only through that handler; otherwise the commit is handed to the host commit scheduler. In each case all commits prepared for the batch are run by the single callback handed over, in order, and no commit is run by any other route.',
 ['inputs','histories'],'all option combinations (sync, handler, priority, transition, delay) and all batch compositions',
 'tests cover each mode alone; mixtures of lanes in one batch are not enumerated',
 ['src/runtime.ts'],[['commit mode selection','src/runtime.ts Runtime._flush']],[],['UpdateOptions.handler','HostAdapter.requestCommit']);

p('C04','Lanes are disjoint and options map to them faithfully',
 'The lanes for sync, handler, the three priorities, every transition number and the two delay classes are pairwise disjoint bits, the composite masks are exactly the union of their lanes, and converting a priority to a lane and back returns the same priority. Each option that is present adds its own lane and nothing else, options that are absent add none, and an update without options takes the lane of the host task priority, so that no update has empty lanes.',
 ['inputs','configurations'],'all option objects, all transition numbers, all priorities',
 'unit tests check a few options and indices',
 ['src/lane.ts','src/runtime.ts'],[['lane constants and option mapping','src/lane.ts'],['fallback to the host priority','src/runtime.ts Runtime.schedule']],[],['UpdateHandle.lanes']);

p('C05','Middlewares wrap every update, in order, exactly once',
 'Every update that is rendered goes through all registered middlewares in registration order, each wrapping the next, and the innermost step prepares the very update passed on by the last middleware. What a middleware returns is what gets committed, and removing a middleware removes that one and no other.',
 ['programs','histories'],'all middleware stacks and all updates',
 'tests use one or two middlewares with fixed behaviour',
 ['src/runtime.ts'],[['middleware pipeline','src/runtime.ts runPipeline, Runtime.use']],[],['Runtime.use','Middleware.handle']);

p('C06','Rendering has no side effects on the host tree',
 'Rendering and diffing (everything before a commit runs) never mounts, moves, unmounts or updates anything in the document and never runs or cleans up an effect or element reference; these happen only in commits. Conversely committing never renders a component.',
 ['programs','histories','fault_sequences'],'all component programs and all points at which a render may be abandoned',
 'tests cannot show the absence of an effect on every reachable path',
 ['src/runtime.ts','src/component.ts','src/commit.ts','src/dom/root.ts','src/dom/adapter.ts','src/dom/template.ts'],[['prepare returns a commit closure','src/dom/root.ts, src/component.ts'],['renderer without commit calls','src/runtime.ts Runtime.render, Runtime.diff']],[],['Part','Block','ComponentInstance.connect']);

p('C07','Effects run after commit and are cleaned up exactly once',
 'An effect is set up only when its component is committed, and only if it is new, has no dependencies or its dependencies changed since the last render that declared it, even if an intermediate render was discarded. Its previous cleanup runs once before the next setup or on unmount, and never twice even if it or a setup throws.',
 ['histories','fault_sequences'],'all sequences of renders, discarded renders, commits, unmounts and throwing effects',
 'tests run short scripted sequences',
 ['src/component.ts','src/commit.ts','src/compare.ts'],[['dirty flag and stored cleanup','src/component.ts FunctionComponent.connect/disconnect, RenderContext.useEffect'],['connect after commit, disconnect on unmount','src/commit.ts']],[['effect hook','setup, deps, cleanup, dirty','src/component.ts']],['RenderContext.useEffect']);

p('C08','Hook state stays attached to its call position',
 'Each hook call takes exactly one slot, in call order, starting from the first on every render; it creates the slot on the first render and reuses the same one afterwards. Calling a different kind of hook at a position, or more or fewer hooks than before, throws instead of using another hook’s state. A memoized value, callback or reference is kept exactly until its dependencies change, and an identifier for ever.',
 ['programs','histories'],'all hook call sequences over all renders',
 'tests exercise a few orders and mismatches',
 ['src/component.ts','src/addons/hooks.ts','src/addons/signal/signal.ts','src/addons/router/hook.ts'],[['slot index, slot type check, finalizer slot','src/component.ts RenderContext, finalizeContext']],[['hooks array and index','slots of one component instance','src/component.ts']],['RenderContext']);

p('C09','State actions are applied exactly once, in order, in their lanes',
 'A dispatched action takes effect in the first render that includes its lanes and is kept until then; actions are folded in dispatch order, each through the reducer of the latest render when it was dispatched or applied, over the kept state (for passthrough state, over the initial state of the render at hand), and a render that skips one, or applies one that is to be reverted, never makes its result permanent; an action to be reverted stays so until the render of its reversal. An update is skipped at dispatch only if no other action is outstanding and the reducer’s result (compared as the next with the previous state) equals the current state; otherwise exactly one update with the caller’s options is scheduled.',
 ['histories','schedules'],'all sequences of dispatches and renders with arbitrary lanes',
 'tests use a few dispatch/render sequences and mostly one lane',
 ['src/component.ts'],[['action queue with lanes, eager state','src/component.ts RenderContext.useReducer']],[['pending and memoized actions','actions not yet permanent','src/component.ts']],['RenderContext.useReducer','RenderContext.useState']);

p('C10','Mounting and unmounting reach every node exactly once',
 'Mounting a rendered tree mounts each block, binding and component below it once, children of a block before the block itself; unmounting releases each of them once: every binding is told to unmount, every component is disconnected, and every block not already removed with an enclosing one is removed. Nodes below a removed block are told that the removal is cascading and nodes that are not are told that it is not. A node that takes the place of another one is mounted only after the other one was released.',
 ['inputs','histories'],'all trees of fragments, components, templates, portals and bindings',
 'tests use small fixed trees',
 ['src/commit.ts','src/dom/part.ts'],[['recursive mount and unmount per node kind','src/commit.ts mountChild, unmountChild, afterCommit'],['cascade flag','src/dom/part.ts']],[],['Part.commitMount','Part.commitUnmount','Part.unmountBlock']);

p('C11','A node keeps its identity exactly when type and key match',
 'On re-render a node keeps its part, its block or component instance and its committed children if and only if the element has the same type and the same key by SameValue; otherwise a new node takes over the same position, and commit agrees with diff on which of the two happened. A node is returned unchanged only if its props are identical, or for a component only if no lanes of this flush are pending on it and its props are equal by its own comparison.',
 ['inputs','histories'],'all pairs of old node and new element of every kind and key value, including NaN and -0',
 'tests sample a few pairs',
 ['src/runtime.ts','src/commit.ts'],[['type and key test, state propagation','src/runtime.ts Runtime.diff'],['same test when committing','src/commit.ts applyPatch']],[],['Renderer.diff']);

p('C12','List reconciliation accounts for every old and new child',
 'When a list of children is re-rendered, every new position receives exactly one child rendered or diffed for that position and every old child is either reused by exactly one new child with the same key or removed. Each change is recorded once and carries the old child, the new child and the new position it belongs to.',
 ['inputs'],'all pairs of old and new key sequences, including duplicated and missing keys',
 'tests sample permutations; property holds for every step of the two-ended scan',
 ['src/runtime.ts'],[['two-ended keyed diff','src/runtime.ts Runtime._diffChildren']],[],['Renderer.diff']);

p('C13','List changes are committed completely and next to placed siblings',
 'Committing a list runs every recorded change exactly once: removals before anything is placed, then each change at its own position. A child that is inserted, replaced or moved is placed before the first host node of the following siblings that are in place in the same container position, looking through fragments, components and enclosing lists, or at the end when there is none.',
 ['inputs','histories'],'all list edits at all nesting depths',
 'tests check flat lists and a few moves',
 ['src/commit.ts'],[['mutation application and sibling search','src/commit.ts applyMutations, getSiblingDOMNode, getChildDOMNode']],[],['Part.mountBlock','Part.moveBlock']);

p('C14','Event listeners are attached and detached in pairs',
 'After every commit at most one listener is attached per event binding: it is attached exactly while the bound listener is not nullish, with the options of the listener that was current when it was attached, and it is detached with those same options when the listener becomes nullish, changes its options or is unmounted. Events are always dispatched to the listener of the latest commit, and a value that is not a listener is rejected before anything changes.',
 ['histories','inputs'],'all sequences of listener values over mount, update and unmount',
 'tests try a few value sequences',
 ['src/dom/part.ts'],[['stable listener object delegating to the current value','src/dom/part.ts EventPart']],[['current listener','last committed listener','src/dom/part.ts']],['EventTarget.addEventListener','EventTarget.removeEventListener']);

p('C15','Each binding writes its value, and only when it changed',
 'Committing a value to an attribute, class, style, property, live property, text or element binding leaves the host node showing the new value and nothing of the old one, and does not touch the host when the value is unchanged, except live properties, which compare with the host. Class and style bindings undo their own tokens and properties on a non-cascading unmount, and an element reference is cleaned up once before it is replaced or unmounted.',
 ['inputs','histories'],'all sequences of committed values per binding kind',
 'tests sample values',
 ['src/dom/part.ts','src/compare.ts'],[['per kind commit methods','src/dom/part.ts']],[],['Part.commitMount','Part.commitUpdate','Part.commitUnmount']);

p('C16','Template expressions bind to their own holes',
 'A parsed template has exactly one hole per expression or parsing fails, holes are recorded in expression order with the kind and the name written in the template and a position of their own, and rendering creates for the i-th hole the binding of that kind at that position as the i-th part. A template without static nodes before its first hole still renders a static anchor. White space of the static text is removed only at an end of a text, where it contains a line break.',
 ['inputs'],'all templates and all hole kinds',
 'tests sample templates',
 ['src/dom/template.ts'],[['template parser and renderer','src/dom/template.ts DOMTemplate, parseTemplate, collectAttributeHoles, resolvePart']],[],['DOMTemplate.render','Block.parts']);

p('C17','Template composition is cached only under its full key',
 'Composing partial templates returns cached strings only when the outer strings are identical and the embedded partials contribute the same strings at the same expressions, and otherwise computes them and caches them under that key. The resulting expression values are those of the call at hand in textual order, with the values of embedded partials in place of the partials.',
 ['inputs','histories'],'all sequences of compositions from all call sites',
 'tests compose a few partials',
 ['src/velement.ts'],[['interpolation cache','src/velement.ts Partial.parse']],[['interpolation cache','strings to interpolations','src/velement.ts']],['Partial.parse','Partial.html']);

p('C18','A signal write changes the version and notifies every subscriber',
 'Writing a different value to a writable signal stores it, then increases the version once and then notifies every subscriber that was subscribed and not removed since, each once; writing an equal value does nothing. Unsubscribing stops notifications to that subscription and no other, also during a notification, and is idempotent.',
 ['histories','inputs'],'all sequences of writes, subscriptions and unsubscriptions, including from inside a notification',
 'tests use a few subscribers and orders',
 ['src/addons/signal/signal.ts','src/addons/signal/linked-list.ts'],[['write, invalidate, subscriber list','src/addons/signal/signal.ts WritableSignal'],['owner-tagged linked list','src/addons/signal/linked-list.ts']],[],['Signal.subscribe','Atom.value']);

p('C19','Computed signals are never stale and recompute only on change',
 'Reading a computed signal recomputes it, from the current values of its dependencies in order, exactly when some dependency has changed since the value was last computed, and records that version only after a successful computation. Subscribing subscribes to every dependency and unsubscribing undoes each of these.',
 ['histories','inputs'],'all dependency graphs and all interleavings of writes and reads',
 'tests use small graphs',
 ['src/addons/signal/signal.ts'],[['version sum and memoized result','src/addons/signal/signal.ts Computed']],[],['Computed.value','Computed.subscribe']);

p('C20','Deriving state never mutates values it does not own',
 'Editing derived state, through its enumerable properties, never writes to or deletes from an object that the user passed in or read out before: changes are kept aside and applied to a fresh copy when the value is read, and the copy replaces the stored value. The only writes into a value that is being assigned replace draft proxies inside it by their targets, and draft proxies are revoked when the editing callback ends, also on error.',
 ['histories','inputs'],'all object graphs and all edit sequences',
 'tests compare a few snapshots',
 ['src/addons/signal/derivable.ts'],[['copy on commit, proxies, finalization','src/addons/signal/derivable.ts commitValue, finalizeValue, Derivable.scope']],[],['Derivable.value','Derivable.scope']);

p('C21','A matched route receives exactly its own captures',
 'Matching a URL yields the result of the first route, depth first in declaration order without backtracking out of a matched prefix, whose patterns consume all components, called with the captures of exactly the patterns on its path in order; a string pattern must equal its component and a matcher must return a value. No other resolver is called and no captures of rejected routes are included.',
 ['inputs'],'all route tables and URLs',
 'tests sample tables and URLs',
 ['src/addons/router/router.ts','src/addons/router/matchers.ts'],[['component-wise matching','src/addons/router/router.ts Router.match, collectCaptures']],[],['Router.match']);

p('C22','Navigation adapters intercept only their own navigations and unlisten',
 'A listener is called only for navigations that can be intercepted, stay in the same document and are no downloads, hash navigations going to the hash adapter only and all others to the browser adapter only, with the URL, state and type of the destination. The function returned by listening removes exactly that listener, and the in-memory adapter changes its location only after all intercepted handlers have succeeded.',
 ['inputs','histories','fault_sequences'],'all navigation events and listener histories',
 'tests simulate a few events',
 ['src/addons/router/adapter.ts'],[['navigate event filters and disposers','src/addons/router/adapter.ts']],[],['NavigationAdapter.listen','NavigationAdapter.navigate']);

p('C23','Add-on hooks leave no subscription or pending state behind',
 'A component using a signal, an external store or navigation holds exactly one subscription to its current source while it is mounted, replaced when the source changes and released on unmount; a change of a signal or an external store that happens between render and subscription is not missed, and reading a signal that throws does not stop the component from following it. A transition marks itself pending before its action runs and ends exactly once after the action finishes, fails or throws; a deferred value follows the latest one, and an event callback calls the function of the latest committed render; a handle given to a reference is taken back when it is replaced or the component unmounts. What a component gives for the interception of a navigation takes precedence over what the hook does by itself, and a signal made by a hook is kept by its component, a computed one until one of its dependencies is another signal.',
 ['histories','fault_sequences','schedules'],'all orders of renders, source changes, unmounts and action outcomes',
 'tests script a few orders',
 ['src/addons/hooks.ts','src/addons/signal/signal.ts','src/addons/signal/hooks.ts','src/addons/router/hook.ts'],[['effect based subscriptions','src/addons/hooks.ts, src/addons/signal/signal.ts Signal.onUse, src/addons/router/hook.ts']],[],['SyncExternalStore','Transition','Signal.onUse','SyncNavigation']);

p('C24','Runtimes are isolated and importing has no side effects',
 'No mutable state is shared between runtimes, roots or component instances through modules, except caches that are keyed by immutable template identity and give results independent of who filled them. Importing any module changes nothing outside it, and matching text with the library’s own patterns never depends on earlier matches.',
 ['programs','configurations'],'all combinations of runtimes and roots in one realm, all bundler orderings',
 'tests run one runtime at a time in a fresh realm',
 ['src'],[['instance fields instead of module state','src/**']],[],['package.json sideEffects']);

p('C25','Debug-only code can be stripped',
 'Removing the debug-labelled sections changes diagnostics only: they may warn, extend an error message, name or freeze objects of the library’s own or throw for invalid usage, but nothing outside of them depends on anything they compute or assign, and they call nothing that changes state or the document.',
 ['programs','configurations'],'all programs, in builds with and without debug sections',
 'the test build always contains the debug sections',
 ['src'],[['DEBUG labelled statements','src/**']],[],['production build']);

p('C26','Injection finds the nearest, latest provided instance',
 'Injecting a class returns the most recently provided instance of it in the nearest enclosing component that provides one, starting with the component itself, else the default of the class, else throws; what enclosing components provide is taken from their renders that last reached the component, so one that is skipped as unchanged keeps seeing the earlier instances. It never returns an instance provided by a sibling or descendant. Providing after the component has rendered is refused.',
 ['programs','inputs'],'all component trees and provider placements',
 'tests use shallow trees',
 ['src/component.ts','src/base.ts','src/runtime.ts'],[['scope chain lookup','src/component.ts RenderContext.inject'],['one scope per component render','src/runtime.ts, src/component.ts']],[],['RenderContext.inject','RenderContext.provide']);

p('C27','The update queue always yields a most urgent update',
 'Taking from the update queue returns and removes an element that no other element precedes, peeking returns the same element without removing it, and no element is lost or duplicated. Updates are ordered by their most urgent lane and then from outer to inner components.',
 ['histories','inputs'],'all sequences of insertions and removals',
 'tests sample sequences',
 ['src/queue.ts','src/runtime.ts'],[['binary heap','src/queue.ts PriorityQueue'],['update comparison','src/runtime.ts compareUpdates']],[],['PriorityQueue','step()']);

p('C28','The core is independent of the host',
 'The rendering core touches the host only through the adapter, part and block interfaces it is given: it uses no document or window interface of its own and does not depend on the DOM or add-on modules, and nothing in the library depends on an add-on. Everything a runtime needs from its environment other than microtasks goes through its adapter.',
 ['programs','configurations'],'all host adapters',
 'tests always run with a DOM present',
 ['src'],[['layering of modules','src/*.ts, src/dom, src/addons']],[],['HostAdapter']);

p('C29','A component renders at most once per batch and misses no update',
 'A pending update renders its component unless a render in the same batch has already covered its lanes, rendering clears exactly the covered lanes, and scheduling marks the component with the lanes of the update. A component that is not mounted is not rendered by its own updates, and the commit of an update whose component has been unmounted meanwhile does nothing.',
 ['histories','schedules'],'all combinations of self-updates and parent renders over lanes and batches',
 'tests script a few combinations',
 ['src/component.ts','src/runtime.ts'],[['pending lanes of a component','src/component.ts FunctionComponent, UpdateComponent'],['skip of covered updates','src/runtime.ts Runtime._flush']],[],['ComponentInstance.pendingLanes','Transaction']);

p('C30','Tracing middlewares are transparent',
 'With the logging or profiling middleware installed every update is rendered once and committed once with the same update, results and errors as without it. Console groups are closed and timing marks are recorded in begin/end pairs on every path, also when rendering or committing throws, as far as the phase has been completed.',
 ['programs','fault_sequences'],'all updates, all failures',
 'tests cover one success and one failure',
 ['src/addons/update-logger.ts','src/addons/update-profiler.ts'],[['wrapping render and commit','src/addons/update-logger.ts UpdateLogger.handle, src/addons/update-profiler.ts UpdateProfiler.handle']],[],['Middleware.handle']);

p('C31','Identifiers and transition numbers are unique and stable',
 'Within a runtime every identifier, transition number and update number is handed out once; identifiers start with the host’s identifier, which is a letter followed by letters and digits and thus valid both as an element id and as a template marker. A component keeps the identifier it got on its first render.',
 ['histories','inputs'],'all sequences of requests, all random bytes',
 'tests look at a few values',
 ['src/runtime.ts','src/component.ts','src/dom/adapter.ts','src/dom/template.ts'],[['counters','src/runtime.ts'],['identifier generator and marker pattern','src/dom/adapter.ts, src/dom/template.ts']],[],['RenderContext.useId']);

p('C32','A root shows the latest rendered value and unmounts it once',
 'Rendering into a root mounts the first value and patches the mounted tree with each later one, against what was committed last; unmounting removes the mounted tree once and a later render mounts afresh. Each is scheduled with the caller’s options and takes effect only in its commit.',
 ['histories'],'all sequences of renders and unmounts in any batching',
 'tests run short sequences one update at a time',
 ['src/dom/root.ts'],[['committed and pending child of the root','src/dom/root.ts DOMRoot']],[],['DOMRoot.render','DOMRoot.unmount']);

p('C33','Host callbacks run once, with the requested priority',
 'A synchronous update does not wait for the host and every other one is handed to it. A requested callback is run exactly once, after the call returns, and its errors reach the returned promise; the priority of the update (the one asked for, else the one of its lanes) and its delay are handed to the host and honoured with and without the native task scheduler. A requested commit runs exactly once, on the next frame or at the latest after a fixed time, with the other trigger cancelled.',
 ['schedules','configurations'],'all hosts (with or without scheduler, idle callbacks, visible or hidden), all options',
 'tests fake one host at a time',
 ['src/dom/adapter.ts','src/runtime.ts'],[['scheduler and timer fallbacks','src/dom/adapter.ts DOMAdapter.requestCallback, requestCommit'],['options handed to the host','src/runtime.ts Runtime.schedule']],[],['HostAdapter.requestCallback','HostAdapter.requestCommit']);

p('C34','Blocks move as a contiguous range including dynamic content',
 'Mounting a block inserts its nodes at the requested place, moving and unmounting act on every node from its first to its last static node in document order, including nodes mounted in between later, and on no other node. The nodes are collected before any of them is moved or removed.',
 ['inputs','histories'],'all templates and all content mounted into them',
 'tests use a few templates',
 ['src/dom/block.ts','src/dom/part.ts'],[['range between static nodes','src/dom/block.ts DOMBlock, collectChildNodes']],[],['Block']);

p('C35','The template minifier only rewrites the listed templates',
 'Minification changes only the text of template literals whose tag is one of the configured names, found anywhere in the module, and in these only line breaks with their indentation: they are dropped next to a tag bracket and otherwise become one space. Sources without such templates and sources that cannot be parsed are passed through unchanged.',
 ['inputs'],'all modules',
 'tests transform a few snippets',
 ['tools/esbuild-plugin-minify-templates/src/index.ts','tools/esbuild-plugin-minify-templates/src/transform.ts'],[['syntax tree walk and replacement','tools/esbuild-plugin-minify-templates/src/transform.ts']],[],['minifyTemplates']);

p('C36','Equality helpers decide exactly element-wise SameValue',
 'Dependency lists, sequences and shallow objects compare equal exactly when they are the same or have the same length or own keys and every element is equal by the given equality (SameValue by default); nullish dependency lists never compare equal. All change detection between renders uses SameValue semantics, so NaN never counts as a change and 0 and -0 do.',
 ['inputs'],'all values',
 'tests sample values',
 ['src/compare.ts'],[['comparison helpers','src/compare.ts']],[],['sequentialEqual','shallowEqual']);

p('C37','Any value can be rendered and maps to one element kind',
 'An element is used as it is, a value that knows how to render itself is asked to, any other iterable object becomes a list of its wrapped items and everything else, including strings and nullish values, becomes a plain binding. Every constructor of elements wraps each of its children exactly once, in order, and changing the key of an element changes nothing else.',
 ['inputs'],'all JavaScript values',
 'tests sample values',
 ['src/velement.ts','src/base.ts'],[['wrap and element constructors','src/velement.ts, src/base.ts VNode']],[],['html','createFragment','createPortal','createBind']);

p('C38','Operations finish: no loop spins',
 'Every operation of the library finishes on finite input: each repetition of a loop, and each recursive call, gets nearer to its end. It moves a counter towards its bound, follows a link of a finite chain, or takes an element from a list, a queue or an iterator; no repetition leaves everything as it was. So no input, tree, key sequence, priority mix or failure makes rendering, committing, flushing, matching or parsing run forever.',
 ['inputs','schedules','histories'],'all inputs, trees and schedules',
 'tests end because their inputs do; a repetition without progress needs the one input that reaches it',
 ['src'],[['every while, do and for loop','src'],['every recursive call','src']],[],['Repeat','flush','createMatcher']);

p('C45','Drafts read as the edited object',
 'While derived state is edited, its draft reads as the object with the edits made so far: a property gives its present value (an object as a draft of that very property), a deleted property reads as undefined, is not found, not listed and has no descriptor until it is assigned again, and a property the original lacks is found, listed and described with its present value once it is assigned. Everything else is as in the original; merely reading a property adds nothing.',
 ['inputs','histories'],'all objects, keys and sequences of edits',
 'tests read back a few edits',
 ['src/addons/signal/derivable.ts'],[['traps of drafts','src/addons/signal/derivable.ts draftTarget'],['states of a property','src/addons/signal/derivable.ts resolveProperty, setPendingValue, deleteProperty']],[['property flags','which edits a property has had','src/addons/signal/derivable.ts']],['Derivable.scope','Object.keys(draft)','key in draft']);

p('C40','Committed DOM equals a fresh render of the latest tree',
 'After any sequence of updates the document below a root equals what a fresh render of the latest elements and component states would produce, and no effect, listener or reference of a removed part remains active.',
 ['inputs','histories','schedules'],'all trees, update sequences and batchings','tests compare a few sequences',
 ['src/runtime.ts','src/commit.ts','src/dom'],[['reconciliation as a whole','src/runtime.ts, src/commit.ts']]);
p('C41','Derived state behaves like editing a plain object',
 'Any sequence of reads, writes and deletions through derived state yields the same values as performing it on a deep copy of the plain object.',
 ['inputs','histories'],'all object graphs and edit sequences','tests script a few edits',
 ['src/addons/signal/derivable.ts'],[['property signals and proxies','src/addons/signal/derivable.ts']]);
p('C42','More urgent updates are never delayed behind less urgent ones',
 'Whenever a flush takes its next batch, no waiting and delivered update is more urgent than the batch it takes, and a less urgent delivered update is eventually taken.',
 ['schedules','histories'],'all arrival orders of updates and callbacks','tests check a few arrival orders',
 ['src/runtime.ts','src/queue.ts'],[['lane ordered queue and batch cut','src/runtime.ts Runtime._flush']]);
p('C43','Transient state reverts when its transition completes',
 'A transient action is visible until the render that includes the lanes of its own update has replaced it, and is not applied again afterwards.',
 ['histories','schedules'],'all interleavings of transient actions with renders','tests script a few interleavings',
 ['src/component.ts'],[['revert lanes','src/component.ts RenderContext.useReducer']]);
p('C44','Diagnostics point at the offending node',
 'Error and warning messages show a frame of the surrounding markup in which exactly the offending node or attribute is underlined.',
 ['inputs'],'all documents','tests compare a few frames',
 ['src/dom/debug.ts'],[['node frame printer','src/dom/debug.ts generateNodeFrame']]);

fs.writeFileSync('/verif/properties.jsonl',P.map(x=>JSON.stringify(x)).join('\n')+'\n');
for(const x of P){ if(x.title.length>80) console.log('long',x.id,x.title.length); const n=x.statement.split(/[.;!?](?=\s|$)/).filter(Boolean).length; if(x.statement.split(/\.(?=\s|$)/).filter(s=>s.trim()).length>3) console.log('sentences',x.id); }
console.log(P.length);
