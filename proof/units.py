"""What each property's check decides, and how. Read by prove.py, check.py and tools/mkmanifest.py."""

NOT_APPLICABLE = {}
# what every proof takes for granted (the trusted contracts of each unit are listed in its evidence)
COMMON = [
    "The extraction is faithful: each rewrite it makes (listed per unit under extraction_rewrites) keeps the meaning of the function.",
    "RefCell and Cell are read as plain fields: that no two borrows overlap is checked within a function by the verifier's borrow checker and assumed between callers (an overlapping borrow panics).",
    "Pin is read as a plain mutable reference: futures are not moved by the code under contract.",
    "Verus, Z3, rustc and vstd's specifications of Vec, Option and friends are sound.",
]
UNITS = {"ctup%d" % _n: dict(rlimit=100) for _n in range(1, 13)}
UNITS["mselect"] = dict(expand="select")
UNITS["xderive"] = dict(expand="derive")
UNITS["xnumber"] = dict(expand="derive")
PROPS = {}
for _p in "R01 R02 X01 X02 X03 X04 X05 C01 C02 C03 C04 D01 D02 D03 L01 L02 L03 U01 U02 U03 V01 M01 M02".split():
    PROPS[_p] = dict(level="exploration", technique="bounded exploration of the real code (stand-in)", note="bounded", units=[])

def claim(props, units, note, level="proof", assume=()):
    for p in props.split():
        PROPS[p] = dict(level=level, technique="contract-based deductive verification (Verus) of the functions extracted from the source on every run, with a bounded run of the real code beside it",
                        note=note, units=units.split(), assume=list(assume))

claim("R01 R02", "arena rcell", "Every function of the waker arena and of the reactive cell except the one-line async for_each is under contract; a most general client proves the property for every history of subscribe, poll, drop and borrow over those contracts. for_each is only covered by the bounded run.",
      assume=["a cell is mutably borrowed fewer than 2^64 - 1 times", "a cell is not polled, subscribed to or dropped from while one of its borrow guards is alive (RefCell panics)"])

claim("X01 X02", "arena xwakers xvisit xpaths xnumber xstream xhist xeach!",
      "Everything a change notification runs through is under contract: the waker arena, the entry table, the hash visitor, visit_hashes of every path type (that of derived mappers taken from the macro's quotation; besides, what the macro really makes of nine sample types and of the tuples of one to twelve members, whose members are proved to be told apart), change streams and notify; a most general client proves the property for every history of watch, poll, drop and change, for paths of any type and depth. borrow_opt_mut, its guard's drop, notify_changed, set_opt, until_change and until_bubbling_change of PathExt are under contract too; the same functions of the infallible PathExtGuaranteed are covered by the bounded run.",
      assume=["no two different prefixes of the paths used have the same 64-bit key (the property's own exception)", "fewer than 2^31 operations and fewer than 2^31 levels in a path (version counters do not overflow)", "the derive macro gives the fields of a type of any other shape different numbers too (proved for the sample types and the tuples)", "DefaultHasher is a function of the values written to it, and Hash of a map key writes a function of the key"])

_comb = "Under contract, for every number of children, every order of wakes and every interleaving of polls: the readiness bookkeeping, poll, drop and construction of the array, vec and tuple (every arity the macro is invoked for) combinators, and every behaviour of join, try_join, race and race_ok. %sThe one-line front functions (join(..), race(..) and so on) and PendAfter are covered by the bounded run."
_wakers = "Under contract too: the raw waker vtable and waker_from_redirect_position (shared_arc.rs), the two contents of the shared Arc, and the construction and accessors of WakerArray and WakerVec; a most general client clones, wakes and drops the wakers of a combinator in any order, before and after the combinator itself is dropped, and proves that each wakes exactly its own child, never touches freed memory, and that the shared bookkeeping is freed exactly with the last of them. "
_comb_assume = ["children keep the Future contract: they are not polled after completing (checked here), they may wake any waker at any time", "MaybeUninit is read as an optional value: reading, dropping or overwriting a slot in the wrong state is an obligation"]
_tuples = " ".join("ctup%d" % n for n in range(1, 13))
claim("C02", "cready carray cvec " + _tuples, _comb % "", assume=_comb_assume + ["the waker handed to child i calls the bookkeeping's wake(i) (proved in unit cshared)"])
claim("C01 C03 C04", "cready cshared carray cvec " + _tuples, _comb % _wakers,
      assume=_comb_assume + ["raw pointers are read as values (which allocation or list, which place in it); that two lists alive at once lie at different addresses, and that an Arc's content is not moved, is trusted", "no thread panics while it holds the lock of the bookkeeping (the lock would be poisoned)", "a by-value Arc that is neither stored, returned nor forgotten is dropped at the end of its scope"])

_streams = ["the user's closure, the futures it returns and the incoming stream may change the store in any way except drop the subscription of the future that runs them (it is borrowed)",
            "fewer than 2^62 changes, fewer than 2^29 levels in a path",
            "a subscription is ready exactly if its path or a prefix was changed since it was last polled (X01, proved in units xstream and xhist)",
            "paths are lenses (X03, proved in unit xlens)", "data of an unsized type behaves as that of a sized one"]
claim("X03", "xlens xderive xeach!",
      "Under contract: path_borrow and path_borrow_mut of every path type of the library and of the mappers the derive macro emits (taken from its quotations, for any field of any struct and for named and positional fields of enum variants), the path builders, clones and references of paths, and borrow, get and set of PathExt and PathExtGuaranteed. Proved over them: the lens laws, that a path names nothing exactly when the data is not there, that what is outside it is untouched, and that different elements, keys and fields stay apart however far the paths are extended. Which member, variant and position the macro puts into its quotation is proved for what it really makes of nine sample types (structs, tuple structs and enums with tracked, shallow and skipped members) and of the tuples of one to twelve members; other shapes are covered by the bounded run.",
      assume=["Eq of a map key agrees with equality of keys", "Deref and DerefMut of Box return the content (checked for Box); the content of an Rc can be borrowed mutably exactly if it is the only one (Rc::get_mut)", "data of an unsized type behaves as that of a sized one"])
claim("X04", "xeach xstream! xhist!",
      "Under contract: new and poll of ForEach, ForEachAsync and SignalStream, the functions of PathExt that make them, and borrow_opt, for any path type, closure, store history and data.",
      assume=_streams)
claim("X05", "xeach xstream! xhist!",
      "Under contract: new and poll of BindForEach, the mutable borrow guard with the place its drop happens written out, notify, and the function of PathExt that makes the binding, for any path type, closure, incoming stream (delivering any number of values per poll, changing the store meanwhile), store history and data.",
      assume=_streams)
_combs = "carray! cvec! " + " ".join("ctup%d!" % n for n in range(1, 13))
_page = ["a node handed to the rendering functions is nowhere in the document and its position is free (ContainerNodeFuture and SiblingNodeFuture keep both: proved in unit dnode up to one node being given to two futures)",
         "combinators have fewer than 2^32 - 1 children (u32::MAX is the position of a list's end marker)",
         "BTreeMap keeps its keys in the order of their Ord (which is under contract: ChildPosition's comparison), and web_sys insert_before / remove_child / append_child do what the DOM standard says",
         "the combinator and node units see add_child and remove_child as events; what the events do to the document is proved in unit dom"]
claim("D01", "dpos dom dnode " + _combs,
      "Under contract: ChildPosition (order, ranges), DomContext's add_child, remove_child, get_containing_node and remove_children_here against the document itself, the node futures' poll and drop, and that every combinator polls child i in the context of child i. A most general client proves that any history of additions and removals through any contexts keeps every container in composition order. Lists' own end markers are covered by the bounded run (and by L01).",
      assume=_page)
claim("D02", "dpos dom cdrop dnode " + _combs,
      "Under contract: the removal functions against the document itself (exactly what lies at or below a position goes), the detachment blocker, the drops and drop glue of node futures and of every combinator: outside a blocked drop each removes its own position exactly once, under a block nothing is removed from the group it was rendered in, and the block is always lifted by its owner. The mount and root drop, and rc-held futures, are covered by the bounded run.",
      assume=_page + ["two live DetachmentBlockers never have the same address"])
claim("D03", "dexec",
      "Under contract: the whole of the root executor (ExecutorSingleton::new, set_executor_future, run_now, schedule, the root's raw waker with the four functions of its vtable), the app's executor that it runs, mount_at and mount, against a root future that may wake its waker at any time, in any number; a most general client proves the property for every history of wakes through clones of the waker, explicit schedules, runs and timer callbacks. async_executor itself is covered by the bounded run.",
      assume=["a method of Waker is the call of its vtable entry", "setTimeout succeeds and calls back once", "async_executor's run polls what was spawned on it"])
claim("L01", "xlist",
      "Under contract against the document itself: new, insert, remove, contains_key, move_before, swap, retain and render (coming in, and the guard that runs when it ends) of DynamicList, and move_nodes_before, for any number of items, any content size, any key sequence, before, during and after rendering. The order shown is a function of the document (each key's block, between the list's markers, apart from the others); every operation is proved to change it exactly as the same operation changes a list of keys, to leave everything around the list in place, and to keep what stays in a block in its order. That the content of a removed item goes by the next poll is the executor's and the node futures' part: the former is covered by the bounded run, the latter is D02.",
      assume=["the document does what the DOM standard says (insertBefore, removeChild, appendChild, nextSibling, parentNode, fragments); nodes made by new are new",
              "HashMap finds what was inserted under an equal key; retain visits every entry once",
              "a future spawned on the list's executor shows what it renders before the end marker it was given (dom, dnode), and the parent of the position marker is the node the list is rendered into"])
claim("L02", "xdiff xlist!",
      "Under contract over the dynamic list's contracts (L01): new, update and contains_key of DiffedList, for every previous and new key sequence and every renderer: the keys shown, the futures kept, and the renderer's calls. render is one call of the dynamic list's.",
      assume=["the keys given are distinct; Eq of a key is equality, Hash agrees with it, and its clone is equal to it", "HashSet, slice iterators and Peekable do what std says"])

claim("L03", "xmodel xlist!",
      "Under contract over the dynamic list's contracts (L01): every method of ListModel (the model carries, as ghost state, what it held at each version: the log must say how each came from the one before), Default, Clone and From, and ModeledList::new and update, by the log and by rebuilding, for every history of edits and every version the list was last updated at. Three lemmas show that what update requires of its model holds of any other model, of the one it was just updated from, and of that one after any edit.",
      assume=["the keys of a model are distinct whenever it is edited by an operation other than modify_vec, and when update is called; Eq of a key is equality, Hash agrees with it, and its clone is equal to it",
              "fewer than 2^64 edits of a model", "two counted references made by different calls of Rc::new are never equal by ptr_eq while both exist", "derive(Clone) of ListModel clones each field", "HashSet, VecDeque, slices and their iterators do what std says"])

claim("U01", "uslot",
      "new, set_future, clear_future and render of DynamicSlot are under contract. render is taken as the loop awaiting poll_fn is: its body run once per poll, with, before each poll and during the poll of the future held, any number of calls of set_future and clear_future (two lemmas derive what such calls do from the contracts of the two methods). That the future held, together with the message waiting, is what was asked last is the loop's invariant, from the slot's creation on.",
      assume=["the slot is rendered once, as its documentation asks; the futures given to it have not completed before", "the future held before is dropped when it is overwritten: the slot and the message are its only owners (Rust's ownership)", "wakers keep the Waker contract (will_wake is only true of wakers of the same task)"])

claim("U02", "uevent",
      "new, set_capture, set_passive, poll_next, poll, drop, the listener closure itself and until_event are under contract, over a document with a set of listeners told apart, as the DOM does, by target, name, function and capture. That a stream that has been polled has exactly the listener asked for is its invariant; drop removes that one and no other.",
      assume=["the options are not changed once the stream has been polled (its documentation asks so)", "Rust runs drop once; the JS closure runs vx_event, the closure's body, and Weak::upgrade succeeds exactly while the stream lives", "addEventListener, removeEventListener and AddEventListenerOptions do what the DOM standard says; closures made by Closure::new are different functions"])

claim("U03", "udrop",
      "new, contains_key, set_value, update_options and value of Dropdown are under contract, over a document with one select element: which option elements it has and in what order, their texts, and which is selected (any of them may be when an operation begins: the user selects). That the elements shown are those of the options remembered, in that order, is the invariant; update_options is proved for every previous and new sequence of options.",
      assume=["the options given are distinct, and their texts not blank; Eq of an option is equality, Hash agrees with it, and its clone is equal to it", "insertBefore, removeChild, selectedIndex, selected and value of a select element do what the DOM standard says (inserting and removing may select any option); the select's children are changed by the dropdown only", "HashSet, HashMap, slice iterators and Peekable do what std says"])

claim("V01", "xvirt xlist!",
      "Under contract over the dynamic list's contracts (L01): new, set_direction, set_num_items and update_visible of VirtualizedList, for every layout (the three rectangles read), number of items, range shown before and renderer: the items shown afterwards are those of one range, in order, each rendered by one call unless it was shown before, the range covers the viewport with two viewports of padding on each side and is no wider, and the two spacers have the sizes of the items not shown; nothing is done only if what is shown reaches a viewport and a quarter past the viewport on each side and the number of items was not set. render, which calls update_visible at first and after each scroll, is only covered by the bounded run.",
      assume=["64-bit floats are read as real numbers, and the cast to usize as rounding towards zero within what fits; dividing by zero gives some number (coverage is claimed only for a positive average item size)", "an item's size is what the code estimates it by: the average size of the items shown, or a quarter of the viewport when none is", "the rectangles read are those of the layout when update_visible begins; set_property sets the spacer's size", "the two spacers are different elements and have no size of their own"])

claim("M01", "mcss",
      "Under contract: find_classes and the parser it gives to cssparser (preludes, blocks, at-rules, functions at any depth), and generate up to the text of the script, for every style sheet as cssparser reads it. The names found are proved to be exactly the identifiers right after a dot in the selectors of style rules, also of those inside grouping rules; the text is proved to be the given one with a hyphen and the postfix after each of them, what the script makes of the template literal it is put in to be that text again, and the names the constants are made for to be those names. The rest of generate (the constants, the quotation) and generate_postfix are covered by the bounded run.",
      assume=["cssparser's tokenizer and its driver of rules and at-rules read a style sheet the way the CSS syntax standard says, and call the methods given in its order",
              "class names have no escapes in them and follow their dot at once (others do not compile)", "the style sheet has no token that is an error, and is shorter than 2^56 bytes", "str::replace does what std says; in a template literal of JavaScript nothing but a backslash, a backtick and ${ has a meaning of its own (line endings are all read as line feeds)"])

claim("M02", "mselect",
      "Under contract: the programs that the macro itself (its parser and its generator, compiled from the source and run on every check) makes of uses of select! with 1 to 12 branches, in four ways of writing the branches (handlers as expressions or blocks, with and without commas), for any futures, outputs and handlers and whichever future is ready first: the future of that branch completes and no other, and its handler runs, once, with its output, when all branches have been dropped, and gives the value. When a race is ready and what wakes it are C01 to C03; other forms of patterns, futures and handlers are covered by the bounded run.",
      assume=["the macro treats all patterns, futures and handlers alike, whatever their tokens (its parser and generator pass them on)", "race(..).await ends with the output of the child that is ready first and all children have been dropped then (race is under contract in C01 to C04)",
              "what losing branches do before they are dropped is no part of the statement"])
