import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      observe_at=observe or [],hook_needed=hook)))
IU='async_ui_internal_utils/src/'; CO='async_ui_web_core/src/'; WB='async_ui_web/src/'; HT='async_ui_web_html/src/'; XB='x-bow/src/'; CB=CO+'combinators/'

p('R01','A reactive cell wakes every live subscriber each time it is mutably borrowed',
 'When a mutable borrow of a reactive cell ends, the most recently registered waker of every change subscription that is alive at that moment is woken exactly once, and no waker belonging to a dropped subscription, or to a replaced registration, is woken. This holds whatever order subscriptions were created, polled and dropped in and however many there are, and creating or dropping one subscription never disturbs another.',
 ['histories','inputs'],'Every finite history of create-subscription / poll-with-waker / drop-subscription / mutable-borrow operations on any number of cells and subscriptions.',
 'The wakers of all subscriptions live in one index-linked arena with a free list that is re-used and grown; the tests exercise one subscription at a time and never a history in which slots are freed in the middle, re-used and grown again.',
 [IU+'wakers_arena.rs',IU+'reactive_cell/mod.rs',IU+'reactive_cell/borrow_mut.rs',IU+'reactive_cell/until_change.rs'],
 [('WakersArena::{new,add_sublist,add,remove,update,iter,grow_full_list}',IU+'wakers_arena.rs'),('Drop for ReactiveCellBorrowMut',IU+'reactive_cell/borrow_mut.rs')],
 state=[('items','index-linked circular lists: free list at 0, one circular list per sublist head',IU+'wakers_arena.rs')],observe=['Waker::wake calls after dropping the guard returned by borrow_mut'])
p('R02','A reactive cell reports a change iff one happened since the last poll',
 'After its first poll, each poll of a reactive cell change subscription is ready exactly when at least one mutable borrow of that cell has ended since that subscription was last polled; the first poll is never ready. Changes are never lost between polls, never reported twice, and one subscription being polled never affects what another reports; for-each over a cell runs its function once at the start and again after each such change.',
 ['histories','schedules'],'Every interleaving of polls of any number of subscriptions with mutable borrows.',
 'Depends on the whole history of borrows and polls; existing doc tests only cover one change and one wait.',
 [IU+'reactive_cell/until_change.rs',IU+'reactive_cell/borrow_mut.rs',IU+'reactive_cell/for_each.rs'],
 [('UntilChangeFuture::poll_next version comparison',IU+'reactive_cell/until_change.rs'),('version increment on guard drop',IU+'reactive_cell/borrow_mut.rs')],
 state=[('version','count of finished mutable borrows, starting at 1',IU+'reactive_cell/mod.rs')],observe=['Poll results of until_change()'])
p('X01','Store change streams fire exactly for changes at the path or at one enclosing it',
 'Apart from 64-bit hash collisions, after its first poll a change stream on a path is woken, and ready at its next poll, exactly when since its last poll a change was notified (by dropping a notifying mutable borrow, by set, or by an explicit notification) on that same path or on a prefix of it. Changes at sibling, unrelated or strictly deeper paths, and borrows taken without notifying, never fire it; creating, polling or dropping other streams never changes that.',
 ['histories','inputs','programs'],'Every tree of paths, every set of live streams and every history of stream creation, polling, dropping and notifications.',
 'The tests check a handful of fixed two-level shapes; the guarantee ranges over all path shapes and depths and over histories in which entries are created, shared and reclaimed.',
 [XB+'until_change.rs',XB+'wakers.rs',XB+'hash_visitor.rs',XB+'hash.rs',XB+'borrow_mut_guard.rs',IU+'wakers_arena.rs'],
 [('UntilChange::{new,poll_next,drop}',XB+'until_change.rs'),('StoreWakers::{get_entry,wake_entry,remove_waker_slot}',XB+'wakers.rs'),('HashVisitor::finish_one',XB+'hash_visitor.rs'),('notify',XB+'borrow_mut_guard.rs'),('Path::visit_hashes impls','x-bow/src/impls, x-bow-macros/src/generate.rs')],
 state=[('StoreWakers.map','path hash -> (sublist, version)',XB+'wakers.rs')],observe=['Waker wakes and Poll results of until_change()'])
p('X02','Bubbling change streams fire exactly for changes at or inside the path',
 'Apart from 64-bit hash collisions, after its first poll a bubbling change stream on a path is woken, and ready at its next poll, exactly when since its last poll a change was notified on that same path or on any path that extends it. Changes to enclosing, sibling or unrelated paths never fire it.',
 ['histories','inputs','programs'],'Every tree of paths, every set of live streams and every history of notifications.',
 'Same as X01: tests sample a few shapes of depth two or three.',
 [XB+'until_change.rs',XB+'hash_visitor.rs',XB+'hash.rs',XB+'wakers.rs',XB+'borrow_mut_guard.rs'],
 [('UntilChange::new_bubbling',XB+'until_change.rs'),('HashVisitor::finish_one WakeBubblingListeners',XB+'hash_visitor.rs'),('notify',XB+'borrow_mut_guard.rs')],
 observe=['Waker wakes and Poll results of until_bubbling_change()'])
p('X03','Store paths are lenses onto exactly the data they name',
 'Reading a path after setting it returns the value set, setting a path leaves every part of the store outside it unchanged, and a path yields nothing exactly when the data it names does not exist at that moment (index out of range, key absent, other enum variant, shared reference-counted content for mutation). A failed set returns its argument, leaves the store unchanged and notifies nobody.',
 ['inputs','programs'],'Every store value and every path through vectors, hash maps, options, boxes, reference-counted boxes, tuples and derived structs and enums.',
 'Path projection code is generated per type; tests only type-check most shapes and read back a few values.',
 [XB+'path_ext.rs',XB+'guarantee.rs',XB+'store.rs',XB+'impls/stdlib/vec.rs',XB+'impls/stdlib/hash_map.rs',XB+'impls/stdlib/rc.rs',XB+'impls/stdlib/option.rs',XB+'impls/stdlib/tuple.rs',XB+'impls/transparent.rs','x-bow-macros/src/generate.rs'],
 [('Path::path_borrow / path_borrow_mut impls','x-bow/src/impls'),('set_opt / borrow_opt_mut',XB+'path_ext.rs'),('derive(Trackable) code generation','x-bow-macros/src/generate.rs')],
 observe=['borrow_opt, get_opt, set_opt results'])
p('X04','Store signal streams and for-each run once at start and once per observed change',
 'A for-each (plain or async) over a path calls its function with the current data on its first poll and then exactly on those polls before which the path changed, skipping while the data does not exist, and the async form drops a still running call before the next one is first polled and never polls a finished one. A signal stream yields the current data on the same polls (the first only if asked to fire immediately), and ends if the data does not exist.',
 ['histories','schedules'],'Every interleaving of polls, changes and completions of the started async calls.',
 'The tests poll each adaptor with one or two scripted changes.',
 [XB+'path_ext/for_each.rs',XB+'path_ext/for_each_async.rs',XB+'path_ext/signal_stream.rs',XB+'until_change.rs'],
 [('ForEach::poll',XB+'path_ext/for_each.rs'),('ForEachAsync::poll',XB+'path_ext/for_each_async.rs'),('SignalStream::poll_next',XB+'path_ext/signal_stream.rs')],
 observe=['closure calls and Poll results'])
p('X05','Two-way bindings apply every incoming value and echo none of them back',
 'Polling a two-way binding writes the last value its incoming stream has delivered into the path before reporting anything else, and that write does not by itself call the change function. The first poll, and every poll before which the path was otherwise changed, calls the change function with the current data if no incoming value is written in that poll, and the binding finishes exactly when the incoming stream ends or a delivered value cannot be written, with every value delivered before the end having been applied.',
 ['histories','schedules'],'Every interleaving of incoming values (including several values, or a value and the end of the stream, ready in one poll) with other changes to the path.',
 'There is no run-time test of the binding at all.',
 [XB+'path_ext/bind_for_each.rs',XB+'until_change.rs'],
 [('BindForEach::poll',XB+'path_ext/bind_for_each.rs')],
 observe=['store contents, on_change calls, completion'])
p('C01','Join resolves when all children have, with each output in its own position',
 'For tuples, arrays and vectors of futures of every supported size, join completes on the first poll after which every child has completed, and its result holds at each position exactly the output of the child passed at that position, whatever order the children complete in. Joining nothing completes at once.',
 ['schedules','inputs'],'Every number of children, every completion order and every pattern of wake-ups.',
 'The tests join two or three ready futures; sizes, completion orders and re-polls are unbounded.',
 [CB+'common/array.rs',CB+'common/tuple.rs',CB+'common/vec.rs',CB+'join/array.rs',CB+'join/tuple.rs',CB+'join/vec.rs'],
 [('CombinatorArray/CombinatorVec/CombineN::poll',CB+'common/'),('JoinBehavior',CB+'join/')],
 observe=['Poll result of join()'])
p('C02','Race, try-join and race-ok stop at the first deciding child and combine the rest',
 'Race resolves to the output of the first child that completes, try-join to the first error or else all successes in position, and race-ok to the first success or else all errors in position, for tuples of up to twelve futures, arrays and vectors; a poll in which some child decides returns that decision. Racing nothing stays pending, try-joining nothing succeeds and race-ok of nothing fails, each with the empty collection.',
 ['schedules','inputs'],'Every number of children, every completion order, every success/error pattern.',
 'Tests use two or three children completing at once; tuple sizes above three and mixed orders are never run.',
 [CB+'race/array.rs',CB+'race/tuple.rs',CB+'race/vec.rs',CB+'try_join/array.rs',CB+'try_join/tuple.rs',CB+'try_join/vec.rs',CB+'race_ok/array.rs',CB+'race_ok/tuple.rs',CB+'race_ok/vec.rs',CB+'common/array.rs',CB+'common/tuple.rs',CB+'common/vec.rs'],
 [('maybe_return / when_completed',CB+'{race,try_join,race_ok}/'),('poll',CB+'common/')],
 observe=['Poll results'])
p('C03','Combinators never lose a wake-up and poll only children that need it',
 'On its first poll a combinator polls every child, and afterwards it polls every not yet completed child whose waker fired since that child was last polled, and no child whose waker has not fired since the previous poll of the combinator began, each at most once per poll, never polling a completed child again. Whenever a child of an unfinished combinator is woken after the combinator last returned pending, or while it is being polled, the task that most recently polled the combinator is woken; it is woken only once for any number of child wake-ups between two polls.',
 ['schedules','histories'],'Every number of children and every interleaving of child wake-ups (before, during and after polls, repeated, late) with polls.',
 'A lost wake-up needs a particular order of wake, poll and clear; tests drive combinators with a blocking executor that polls eagerly.',
 [CB+'utils/wakers/array/readiness.rs',CB+'utils/wakers/vec/readiness.rs',CB+'utils/wakers/array/waker_array.rs',CB+'utils/wakers/vec/waker_vec.rs',CB+'common/array.rs',CB+'common/tuple.rs',CB+'common/vec.rs'],
 [('ReadinessArray/ReadinessVec::{wake,set_woken,clear,awake_list,set_parent_waker}',CB+'utils/wakers/'),('poll snapshot of the awake list',CB+'common/')],
 state=[('awake_set / awake_list','set and list of children woken since last cleared; same elements, no duplicates',CB+'utils/wakers/')],observe=['which child polls happen; parent waker wakes'])
p('C04','Combinators return or drop every child output exactly once, memory-safely',
 'Every value produced by a child of a combinator is either part of the combinator result or dropped exactly once, at the latest when the combinator is dropped, whether it completed, returned early or was cancelled half way. Child wakers stay valid after the combinator is gone, each wakes only its own child, and the shared bookkeeping is freed exactly when the combinator and all clones of its wakers are gone; polling a combinator again after it has returned the collected outputs of all its children never produces a second result.',
 ['schedules','crash_points','inputs'],'Every completion order and every cancellation point, for every size; every clone/wake/drop history of the wakers.',
 'Unsafe code over partially initialised arrays and shared pointers: a double drop or leak needs a specific cancellation point, and tests never count drops.',
 [CB+'common/array.rs',CB+'common/tuple.rs',CB+'common/vec.rs',CB+'utils/wakers/shared_arc.rs',CB+'utils/wakers/array/waker_array.rs',CB+'utils/wakers/vec/waker_vec.rs'],
 [('PinnedDrop for CombinatorArray/Vec/CombineN',CB+'common/'),('waker_from_redirect_position vtable',CB+'utils/wakers/shared_arc.rs')],
 state=[('filled / items / pending','items[i] initialised iff filled[i]; pending = number of unfilled',CB+'common/')],observe=['drop counts, strong counts'])
p('D01','Nodes always appear in the document in the order their futures are combined',
 'At every moment, the nodes rendered by a composition of futures appear inside their container in the order of the composition: everything rendered by an earlier child of a combinator precedes everything rendered by a later child, at every nesting level, no matter in which order the nodes were added, removed and re-added. Elements nest their own children, and adding a node never reorders nodes already present.',
 ['histories','inputs','programs'],'Every nesting of combinators and elements and every history of insertions and removals.',
 'The order comes from comparing variable-length paths held in a sorted map; there is no test with a document.',
 [CO+'position.rs',CO+'context.rs',CO+'node_container.rs',CO+'node_sibling.rs'],
 [('ChildPosition ordering and wrap',CO+'position.rs'),('DomContext::add_child',CO+'context.rs')],
 state=[('group','map from path to node, mirrors the container children in order',CO+'context.rs')],observe=['child list of the container node'])
p('D02','Dropping a future removes exactly the nodes it rendered',
 'When a rendering future, combinator or mounted application is dropped where it was being polled (or together with what contains it, or from outside any rendering in the case of a whole application), every node it added is gone from the document and every other node stays where it was, whatever nesting of elements and combinators it contained, and dropping never panics; dropping one that was never polled changes nothing. A node whose enclosing element is removed by the same drop stays inside that element, and later drops are unaffected.',
 ['histories','crash_points','programs'],'Every composition, dropped at every point of its execution, including unmounting outside any poll.',
 'No test renders into a document; the drop order of nested futures and a thread-local guard decide which removal happens.',
 [CO+'context.rs',CO+'dropping.rs',CO+'position.rs',CO+'node_container.rs',CO+'node_sibling.rs',CB+'common/array.rs',CB+'common/tuple.rs',CB+'common/vec.rs',WB+'mount.rs'],
 [('DomContext::remove_child / remove_children_here',CO+'context.rs'),('DetachmentBlocker',CO+'dropping.rs'),('PinnedDrop impls',CO+'node_container.rs')],
 state=[('IS_DROPPING','owner of the current detachment block, null when none',CO+'dropping.rs')],observe=['child list of the container before and after the drop'])
p('D03','The root executor never loses a scheduled run and never re-enters itself',
 'Whenever the root task is woken, it is polled again: in the run already in progress if it is woken during one, otherwise in the next explicit run or timer callback, and however many wakes happen outside a run before the next one, exactly one timer is set for them. The root task is never polled re-entrantly and is not polled when nothing has woken it since it was last polled.',
 ['schedules','histories'],'Every interleaving of wakes (inside and outside polls), explicit runs, nested runs and timer callbacks.',
 'There is no test of the executor; a lost wake-up depends on the order of flag updates around a poll.',
 [CO+'executor.rs'],
 [('run_now / schedule flags',CO+'executor.rs')],
 state=[('scheduled, active','scheduled: a poll is owed; active: a run is in progress',CO+'executor.rs')],observe=['polls of the root future, set_timeout calls'])
p('L01','Dynamic list operations keep the displayed order they promise',
 'After any sequence of insert, remove, move-before, swap and retain, each key in a dynamic list displays its content in one contiguous block, and the blocks follow the sequence obtained by applying the operations to a list of keys: insert-before or at the end, replacing an existing key, moving before a key or to the end, exchanging two keys, keeping those selected. A missing or absent "before" key means the end, the returned flags say whether something was replaced or removed, content of removed items disappears at the latest when the rendering of the list is next polled, nothing the list put in the page for a removed item stays, and this holds before, during and after the list is rendered.',
 ['histories','inputs'],'Every sequence of operations and every content size per item, including adjacent, identical and absent keys.',
 'No test renders a list; adjacency and self-reference cases need specific operation sequences.',
 [WB+'lists/dynamic_list.rs',CO+'node_sibling.rs',CO+'context.rs'],
 [('insert / remove / move_before / swap / retain / move_nodes_before',WB+'lists/dynamic_list.rs'),('marker nodes around each item',WB+'lists/dynamic_list.rs')],
 state=[('items','key -> task and start/end marker nodes',WB+'lists/dynamic_list.rs')],observe=['child list of the containing node between the list markers'])
p('L02','A diffed list displays exactly the new keys, keeping surviving futures',
 'After updating a diffed list with any sequence of distinct keys, the list displays exactly those keys in that order. Keys present before and after keep their existing future, keys that disappeared have theirs dropped, and the renderer is called exactly once for each key that newly appeared.',
 ['inputs','histories'],'Every pair of previous and new key sequences (any permutation with insertions and deletions) and every chain of updates.',
 'The diff walks two sequences at once; it must be right for every permutation, while doc tests do not run it at all.',
 [WB+'lists/diffed_list.rs',WB+'lists/dynamic_list.rs'],
 [('DiffedList::update',WB+'lists/diffed_list.rs')],
 state=[('prev_keys_list','keys currently displayed, in order',WB+'lists/diffed_list.rs')],observe=['displayed order, renderer calls, future drops'])
p('L03','A modeled list always displays its model after an update',
 'After updating a modeled list from a list model of distinct keys, the list displays exactly the keys of the model in order, whatever edits (insert, remove, push, pop, swap, move, direct access) were made since the last update, however many, and also if a different model or a clone is passed. Keys never removed from the model between two updates keep their futures when the model is the same, and the model itself behaves as the corresponding vector operations.',
 ['histories','inputs'],'Every sequence of model edits and updates, including log truncation, clones and several lists following one model.',
 'Which of two update paths runs depends on version arithmetic over a bounded log; a stale replay needs a particular number of edits relative to the length.',
 [WB+'lists/modeled_list.rs',WB+'lists/dynamic_list.rs'],
 [('ListModel edit methods and add_change',WB+'lists/modeled_list.rs'),('ModeledList::update',WB+'lists/modeled_list.rs')],
 state=[('log.changes, log.version','last edits in order; version of the newest',WB+'lists/modeled_list.rs')],observe=['displayed order, renderer calls'])
p('U01','A dynamic slot shows the last future set and nothing else',
 'After a dynamic slot is polled, the future it holds is the one most recently set, or none if it was cleared after that, every superseded future having been dropped; each set or clear wakes the task that renders the slot. The held future is polled with the current waker on every poll of the slot until it completes, and never again after it has completed.',
 ['histories','schedules'],'Every interleaving of set, clear, polls and completions of the held future.',
 'There is no run-time test of the slot; the failing cases need a completion followed by another wake-up, or several sets between polls.',
 [WB+'components/dynamic_slot.rs'],
 [('DynamicSlot::render / set_future / clear_future',WB+'components/dynamic_slot.rs')],
 observe=['polls and drops of the futures set; wakes'])
p('U02','Event streams yield the latest event and never leak their listener',
 'An event stream registers exactly one listener, with the name and options asked for, on its first poll and removes that same listener when dropped, so that afterwards the target has no listener left from it. While it lives, every event wakes the task that polled it last, and the next poll yields the most recent event not yet yielded, each at most once, staying pending otherwise.',
 ['histories','schedules','configurations'],'Every interleaving of polls, events and the drop, for every combination of listener options.',
 'There is no test with an event target; a leak depends on the capture option.',
 [HT+'event_handling.rs'],
 [('EventFutureStream::{poll_next,drop,set_capture,set_passive}',HT+'event_handling.rs')],
 observe=['listeners registered on the target; Poll results'])
p('U03','A dropdown offers the options last given, in order, keeping its selection',
 'After updating the options of a dropdown with any sequence of distinct options, the select element has exactly one option element per option, in that order and with the given (non-empty) text, re-using the elements of options that stay. The current value is unchanged if that option is still offered, no element is selected otherwise, and setting a value selects that option or, when absent or none, deselects.',
 ['histories','inputs'],'Every sequence of option updates, programmatic selections and user selections.',
 'There is no test; ordering shares the two-sequence walk of L02 and must hold for every permutation.',
 [WB+'components/dropdown.rs'],
 [('Dropdown::{update_options,set_value,value}',WB+'components/dropdown.rs')],
 observe=['children of the select element, value()'])
p('V01','A virtualized list renders exactly the items around the viewport',
 'Whenever a virtualized list reacts to a scroll or size change, the rendered items form one contiguous index range covering the viewport with padding (items taken to have the average size of those shown), and the spacers stand for the remaining items. No item is rendered twice, missed inside that range, or shown beyond the number of items.',
 ['inputs','histories'],'Every viewport geometry and every scroll history.','Depends on layout results (floating-point geometry) that no test supplies.',
 [WB+'lists/virtualized_list.rs'],[('VirtualizedList::update_visible',WB+'lists/virtualized_list.rs')],observe=['rendered index range'])
p('M01','css! postfixes exactly the class names of selectors, and changes nothing else',
 'For every style sheet, css! registers that same style sheet, except that each class name in the selectors of its style rules (at top level or within @media, @supports, @container and @layer blocks, at any depth of functions such as :not()) gets a postfix made from the style sheet. Everything else comes through as written: strings, comments, numbers, URLs, other at-rules, and characters that mean something in the JavaScript the style is shipped in. It defines exactly one public constant per class name (hyphens become underscores), whose value is the postfixed name. Style sheets with different texts get different postfixes (up to hash collisions). A class name that is no Rust identifier is rejected at compile time.',
 ['programs','inputs'],'Every style sheet text.','Compile-time rewriting of text by byte positions over an external tokenizer, and quoting into another language; no test expands the macro.',
 ['async_ui_web_macros/src/css.rs'],[('generate, find_classes',"async_ui_web_macros/src/css.rs")],observe=['generated constants and the style text as JavaScript evaluates it'])
p('M02','select! runs exactly the handler of a branch that completed',
 'For every number of branches and every form of pattern, future expression and handler, select! completes at the first poll at which the future of some branch is ready, with the value of the handler of that branch. That handler is run once, with the output of its own future bound to its pattern, when the futures of all branches have been dropped, and it may use what they borrowed. No other handler runs, and none runs if it is dropped before. A wake of any branch wakes the task.',
 ['programs','schedules'],'Every number of branches, form of branch, and order of completions.','Macro expansion; no test runs it.',
 ['async_ui_web_macros/src/select.rs'],[('MacroInput::parse, generate','async_ui_web_macros/src/select.rs')],observe=['which handlers run, with what, and what is dropped by then'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
