#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

B='src/green/builder.rs'; NC='src/green/node_cache.rs'; GN='src/green/node.rs'; GT='src/green/token.rs'
CU='src/cursor.rs'; API='src/api.rs'; ST='src/syntax_text.rs'; AST='src/ast.rs'; ARC='src/arc.rs'; SLL='src/sll.rs'; UT='src/utility_types.rs'; SER='src/serde_impls.rs'; EL='src/green/element.rs'

p('C01','Builder reproduces every event sequence losslessly',
 'For every well-nested sequence of start-node, token, checkpoint, wrap-at-checkpoint and finish-node calls, the finished tree contains exactly the nodes and tokens that sequence describes, with those kinds and texts, in that order and nesting. Printing the tree (or any node of it) gives back the concatenation of its token texts byte for byte, and its reported text length is the length of that text.',
 ['inputs','histories'],'all well-nested builder call sequences, any kinds, any UTF-8 token texts (also empty and very long), any width and depth',
 'The tests build a handful of flat trees and one s-expression; no test wraps at a checkpoint and checks the shape, none uses wide or deep trees or unusual kinds.',
 [B,NC,GN,GT],[('GreenNodeBuilder event stack',B),('GreenNode::new computing offsets',GN)],
 [('parents','open nodes and where their children start',B),('children','finished elements not yet adopted',B)],
 ['GreenNode::children, kind, text_len, to_string'])
p('C02','Builder rejects misplaced checkpoints and unbalanced calls',
 'Wrapping at a checkpoint that lies before the start of the currently open node, or past the elements pending so far, panics; so does finishing a node when none is open, and completing a build whose pending elements are not exactly one node. A checkpoint that is still in place can be used any number of times, and each use wraps exactly the elements added since it was taken.',
 ['histories'],'all builder call sequences, including unbalanced ones and checkpoints taken at any earlier point',
 'No test exercises a stale checkpoint or unbalanced builder calls at all; validity depends on the whole call history.',
 [B],[('start_node_at assertions',B),('finish / finish_node assertions',B)],[('Checkpoint','position in the pending elements',B)],['panic or returned tree'])
p('C03','A shared node cache never changes what is built',
 'A tree built through a node cache that has already been used for any number of other builds is equal, kind for kind and text for text, to the tree the same calls produce without a shared cache. Trees built earlier stay unchanged and usable, also after the cache is dropped.',
 ['histories','inputs'],'all sequences of builds (with colliding kinds, texts and shapes) through one cache',
 'No test shares a cache; confusion between two entries needs particular pairs of kinds, texts and hash positions among many entries.',
 [NC,B],[('raw-entry lookup comparing kind, text and child identity',NC)],[('nodes, tokens','interned values keyed by a hand-made hash',NC)],['GreenNode structure'])
p('C04','Equal tokens and small nodes built through one cache are stored once',
 'Within one cache, building a token whose kind and text were built before yields the very same shared object, and so does building a node with at most three children, all of them themselves so shared, whose kind and child list were built before. This holds however many other values the cache has received in between.',
 ['histories','inputs'],'all sequences of builds through one cache, across any number of cache growths',
 'No test looks at sharing; losing it changes no text or structure, and shows only after particular growth or hash patterns.',
 [NC],[('node_hash / token_hash agreeing with the hash used at lookup',NC)],[('nodes, tokens','interned values',NC)],['address of the shared green data'])
p('C05','Immutable-tree equality and hashing are structural',
 'Two immutable (green) nodes, or two immutable tokens, compare equal exactly when they have the same kinds, token texts and nesting, no matter how they were built or what they share. Equal values have equal hashes.',
 ['inputs'],'all pairs of green trees and tokens: identical, built by different routes, or differing in one kind, text, boundary or nesting',
 'No test compares green trees; near-equal pairs (same text split differently, same shape with one different kind) are never tried.',
 [GN,GT,ARC],[('derived and hand-written PartialEq/Hash over the thin arc',ARC),('PartialEq for GreenNodeData/GreenTokenData',GN+', '+GT)],[],['==, Hash'])
p('C06','Editing an immutable node yields exactly the edited child list',
 'Replacing, inserting, removing or splicing children of an immutable (green) node returns a node of the same kind whose child list is exactly what the same operation on a plain list gives, with the matching text length, and leaves the original node unchanged. Inserting, removing or splicing at a position beyond the list panics. Constructing a node from an iterator that misreports its length panics instead of dropping or inventing children.',
 ['inputs','histories'],'all green nodes, all in-bounds indices and ranges (every range form), all replacement elements, and iterators with a wrong length',
 'No test calls any of these methods; off-by-one and offset errors depend on index, width and text lengths.',
 [GN,ARC],[('replace_child/insert_child/remove_child/splice_children',GN),('ThinArc::from_header_and_iter length assertions',ARC)],[],['children(), text_len(), offsets seen through a syntax tree'])
p('C07','Iterating the children of an immutable node is an exact double-ended sequence',
 'For any interleaving of forward and backward stepping, skipping ahead from either end, cloning, counting, last and folding, the child iterator of an immutable (green) node yields each child exactly once, in order from each end, and always reports exactly how many remain. Once exhausted it stays exhausted.',
 ['histories','inputs'],'all nodes and all interleavings of iterator calls',
 'No test drives the iterator from both ends; each specialised method is separate code.',
 [GN],[('Children iterator impls',GN)],[],['Iterator/DoubleEndedIterator/ExactSizeIterator methods'])
p('C08','Text ranges say exactly where each element lies in the source',
 'The text range of every node and token starts at the number of bytes of text that precede it in its tree and is as long as its own text, no matter through which navigation it was reached and whether the tree is immutable or mutable. Hence children tile their parent and slicing the root text by a range gives the element\'s own text.',
 ['inputs','histories'],'all trees (offsets up to 2^32-1), all elements, all navigation routes',
 'The one test that looks at ranges checks seven children of one node; offsets are recomputed by separate code on every navigation route.',
 [CU,GN],[('relative offsets in the green tree',GN),('offset passed along on each navigation step; offset_mut for mutable trees',CU)],[('offset','absolute start of an element',CU),('rel_offset','start of a child inside its parent',GN)],['text_range()'])
p('C09','Parent, child and sibling queries agree with the tree structure',
 'From every element, the parent, ancestors, position among siblings, first and last child, next and previous sibling, and the sibling sequences in both directions - each with or without tokens, and each kind-filtered variant - are exactly the elements at those places in the tree, and nothing where there is none. This holds whichever way the starting element was reached, in immutable and mutable trees.',
 ['inputs'],'all trees, all elements, all routes to them, all kind filters',
 'Tests call children() once or twice on one tree; none moves backwards, filters by kind or mixes nodes with tokens.',
 [CU,API],[('sibling search by index in the parent\'s green children',CU)],[('index','position in parent',CU)],['parent, ancestors, index, first/last_child(_or_token)(_by_kind), next/prev_sibling(_or_token)(_by_kind), siblings(_with_tokens)'])
p('C10','First, last, next and previous token follow the source order',
 'The first and last token of a node are the leftmost and rightmost tokens in its subtree, and the next and previous token of a token are its neighbours in the left-to-right token sequence of the whole tree, whatever empty nodes or empty tokens lie between. There is none exactly at the ends, and for nodes without tokens.',
 ['inputs'],'all trees, in particular with childless nodes and zero-length tokens anywhere',
 'No test calls any of these methods; the hard cases need empty nodes in particular positions.',
 [CU,API],[('first_token/last_token/next_token/prev_token',CU)],[],['first_token, last_token, next_token, prev_token'])
p('C11','Tree walks visit every element once, in order, properly nested',
 'A preorder walk of any node yields an enter and a leave event for each element of that node\'s subtree (with tokens, or nodes only), in source order, properly nested and confined to that subtree, and the descendant iterators yield the same elements in the same order. Asking to skip right after an enter event omits exactly the descendants of that element.',
 ['inputs','histories'],'all trees, all start nodes (also in the middle of a tree and with identical neighbours), all sets of skip requests made right after an enter event',
 'No test walks a tree explicitly or skips; confinement to the start node depends on the surroundings of the start node.',
 [CU,API],[('Preorder / PreorderWithTokens state machines and skip_subtree',CU)],[],['preorder, preorder_with_tokens, skip_subtree, descendants, descendants_with_tokens'])
p('C12','Child iteration is exact and never disturbs handles already given out',
 'Iterating the children of a node (nodes only, with tokens, or filtered by kind, also when the filter is applied to a partly consumed or cloned iterator) yields exactly the remaining matching children in order. Every handle the iteration has given out keeps denoting the same element with the same kind, range, text and position for as long as it is kept, no matter which other handles are kept, cloned or dropped while iterating or advancing.',
 ['histories','inputs'],'all nodes, all patterns of keeping, cloning and dropping handles and iterators, all kind filters applied after any number of steps',
 'The tests drop or keep all handles uniformly; the iterator overwrites an element in place only when nobody else holds it, which depends on the exact pattern of live handles.',
 [CU,API],[('to_next_sibling(_or_token) in-place reuse guarded by the reference count',CU),('by_kind adapters',CU)],[('rc','live references to an element',CU)],['children, children_with_tokens, by_kind, to_next_sibling, to_next_sibling_or_token'])
p('C13','Handle equality and hashing mean same place and same underlying element',
 'Two handles compare equal exactly when they have the same start offset and refer to the same shared underlying (green) element. So handles to the same element obtained by different routes are equal and hash equally, and handles to elements that differ in offset, kind, text, content or nesting are unequal.',
 ['inputs','histories'],'all pairs of handles in one tree, or in trees over the same underlying green tree, obtained by any routes, in immutable and mutable trees',
 'No test compares handles; equality spans separately created objects and repeated shared subtrees.',
 [CU,API],[('NodeData::key used by PartialEq/Hash',CU)],[],['==, Hash on nodes, tokens and elements'])
p('C14','Token lookup by offset finds exactly the touching tokens',
 'For every offset inside a node\'s range, looking up tokens returns the single non-empty token of that subtree that touches the offset, or the two non-empty tokens that meet there, left one first, and nothing exactly when the node has no text; an offset outside the range panics. The left-biased, right-biased and iterator views of the result agree with it.',
 ['inputs'],'all trees and start nodes, all offsets, with empty tokens and empty nodes anywhere',
 'No test calls it; boundaries combined with zero-length neighbours and nested boundaries are many.',
 [CU,UT,API],[('token_at_offset recursion over non-empty children',CU),('TokenAtOffset helpers',UT)],[],['token_at_offset, left_biased, right_biased, iteration'])
p('C15','Range lookup returns the deepest element covering the range',
 'For every range inside a node\'s range, the covering element is an element of that subtree whose range contains the range while no child of it does, and a range not contained in the node panics. Looking for a direct child at a range returns a child whose range contains it whenever there is one, and nothing otherwise.',
 ['inputs'],'all trees and start nodes, all ranges including empty ones and ranges at boundaries with empty elements',
 'No test calls it; it is a binary search with an explicit special case for empty ranges.',
 [CU,GN,API],[('child_at_range binary search',GN),('covering_element descent',CU)],[],['covering_element, child_or_token_at_range'])
p('C16','Syntax pointers resolve back to the node they were made from',
 'A pointer made from any node of an immutable tree, resolved against the root of that tree or of an equal tree, gives a node with the same kind and range, hence the original position whenever no other node shares both - for every node, including empty ones. Resolving returns nothing when no such node exists or the given node is not a root, and typed pointers resolve, cast and convert consistently with untyped ones. Two pointers are equal exactly when kind and range are.',
 ['inputs'],'all trees, all nodes as pointees, equal, different and non-root resolution targets',
 'The two tests only check the panic on mutable trees; no test resolves a pointer.',
 [AST,CU,GN],[('SyntaxNodePtr::try_to_node descent by range',AST)],[],['SyntaxNodePtr/AstPtr new, to_node, try_to_node, cast'])
p('C17','The text view of a node behaves like the string it stands for',
 'For the text view of any node and any chain of slices of it at character boundaries, the length, emptiness, printed and converted string, chunk iteration (with early exit and folding), character search and character lookup all agree with the same operation on the corresponding ordinary string. Slicing outside the view panics.',
 ['inputs','histories'],'all trees (any token splitting, multi-byte characters, empty tokens), all slice chains in every range form, all characters and offsets',
 'The only test compares whole texts of flat trees; slices, searches and lookups are never exercised.',
 [ST],[('tokens_with_ranges intersection',ST),('find_char/char_at/slice',ST)],[('range','absolute range of the view',ST)],['SyntaxText methods'])
p('C18','Text-view equality depends only on the text',
 'Comparing two text views, or a text view with a string in either order, is true exactly when their texts are equal, no matter how each text is split into tokens, nested in nodes, interspersed with empty elements or obtained by slicing.',
 ['inputs'],'all pairs of views and strings with equal, nearly equal, prefix and unrelated texts and arbitrary splits',
 'The test tries eleven flat pairs of ASCII chunks; nesting, slices, empty tokens in the middle and multi-byte splits are not sampled.',
 [ST],[('zip_texts lock-step comparison',ST),('PartialEq<str>',ST)],[],['=='])
p('C19','Replacing an element yields the whole tree with only that element changed',
 'Replacing any node or token of a tree by an immutable replacement of the same kind returns an immutable tree equal to the original root tree with exactly that element substituted, leaves the tree it was called on unchanged, and keeps untouched subtrees shared. A replacement of a different kind panics.',
 ['inputs'],'all trees, all elements at any depth, all replacements, on immutable and mutable trees',
 'No test calls it.',
 [CU,GN,API],[('replace_with walking up through replace_child',CU)],[],['replace_with on nodes and tokens'])
p('C20','Editing a mutable tree gives exactly the edited tree',
 'After any sequence of detach and child-splice operations on mutable trees (deleting ranges, inserting fresh or detached or moved nodes and tokens at any valid position and depth), every tree has exactly the text, structure and kinds obtained by the same edits on an ordinary ordered tree. Detached elements become roots of their own trees with their content intact and their ranges starting at zero.',
 ['histories'],'all sequences of edits on any number of mutable trees, with any set of other handles alive meanwhile',
 'No test edits a tree at all.',
 [CU,SLL],[('detach/attach_child/respine',CU),('sorted intrusive list of live children',SLL)],[('index, first/next/prev','live-children bookkeeping adjusted on every edit',CU)],['to_string, children_with_tokens, green() from every root'])
p('C21','Handles keep denoting their element through any edits',
 'Every handle held to an element of a mutable tree keeps denoting that same element after any edits made through other handles: its kind and content evolve only with edits inside it, and its parent, position among siblings, range, neighbours and root are those of the element\'s current place. Two handles to one element always stay in agreement.',
 ['histories'],'all edit histories with any subset of elements being held, including handles dropped and re-acquired at any time',
 'No test edits a tree; stale positions appear only for particular sets of live siblings and particular edit orders.',
 [CU,SLL],[('sll::adjust on index shifts',SLL),('NodeData::new reusing the live node',CU)],[('index','position in parent of every live element',CU)],['parent, index, text_range, siblings, text of held handles'])
p('C22','Detaching children while iterating over them visits every child',
 'In a mutable tree, a loop over a node\'s children (nodes only, or with tokens, or filtered by kind) whose body detaches any of the children it is given still visits every matching child exactly once, in order. Afterwards the node has exactly the children that were not detached, and each detached one is a root with its content intact.',
 ['histories','inputs'],'all nodes of mutable trees and all choices of which visited children are detached, with any other handles alive',
 'No test edits a tree; the documentation of the implementation promises this loop.',
 [CU],[('children iterators on mutable trees',CU)],[],['for c in node.children() { c.detach() }'])
p('C23','Copies and snapshots are isolated from later edits',
 'Edits to a mutable tree never change the immutable tree it was cloned from, other mutable clones, subtree clones, or immutable (green) snapshots taken earlier. A mutable clone of a node in the middle of a tree is the same position in a mutable copy of the whole tree, and a subtree clone is an independent root at offset zero with equal content.',
 ['histories'],'all edit histories interleaved with clones for update, subtree clones and snapshots of any element of any tree',
 'No test edits a cloned tree.',
 [CU,GN],[('structural sharing: edits copy the spine',CU),('clone_for_update/clone_subtree/green',CU)],[],['content of every clone and snapshot'])
p('C24','Immutable trees reject edits and mutability never changes',
 'Detaching from or splicing into an immutable tree, inserting an immutable element into a mutable tree, cloning a mutable tree for update, and making or resolving pointers with a mutable tree all panic, and the immutable tree involved is unchanged afterwards. Whether an element is mutable is the same for all elements of its tree however reached, and never changes.',
 ['histories','inputs'],'all elements of mutable and immutable trees, reached by any route, at any point of an edit history',
 'Two tests check the pointer panics on a one-node tree; nothing checks edits or the propagation of mutability.',
 [CU,AST],[('mutable flag copied from parent; assertions in detach/splice_children/attach_child',CU)],[('mutable','property of the whole tree',CU)],['is_mutable, panics'])
p('C25','No memory error and no leak for any history of handles and edits',
 'For every history of building trees, navigating, cloning, iterating, editing and dropping handles, views, snapshots, caches and builders in any order, the library never touches freed or foreign memory and never frees twice. Once every value has been dropped, everything that was allocated has been released.',
 ['histories'],'all single-threaded histories of safe API calls within their documented preconditions, all drop orders',
 'The module says of itself that it is "utterly and horribly unsafe"; tests drop everything in one order and run without memory checking.',
 [CU,SLL,ARC,GN,GT],[('reference counts, free() and root ownership of the green tree',CU),('thin arc allocation and release',ARC)],[('rc','handles plus live children',CU),('count','owners of a green allocation',ARC)],['address sanitizer, allocation accounting'])
p('C26','Immutable trees can be shared freely between threads',
 'Immutable (green) nodes and tokens may be cloned, read, compared, edited functionally, wrapped in per-thread syntax trees and dropped concurrently by any number of threads in any interleaving: every thread always sees the complete original content, there is no data race, and each allocation is released exactly once, after the last use. Handles into syntax trees cannot be sent between threads.',
 ['schedules','histories'],'all interleavings of any number of threads each running its own script of operations on shared green values',
 'A test asserts the marker traits at compile time; nothing runs two threads.',
 [ARC,GN,GT],[('atomic reference count with release/acquire on drop',ARC)],[('count','owners of a green allocation',ARC)],['content read per thread, race detector, allocation accounting'])
p('C27','Serialised trees carry the complete tree',
 'Serialising any node or token gives a map with its kind in debug form, its text range, and its children in order or its exact text, so that structure, kinds, ranges and text can be read back completely. The result depends only on the tree, not on how the element was reached or whether the tree is mutable. Maps and sequences have exactly the sizes announced to the serialiser, and an error of the serialiser is passed on.',
 ['inputs'],'all trees (any text including control and multi-byte characters), all elements, immutable and mutable',
 'There is no serialisation test.',
 [SER],[('Serialize impls behind the serde1 feature',SER)],[],['serde_json output', 'a strict serialiser of the harness'])
p('C28','Debug dumps list the whole tree and never fail',
 'The compact debug form of a node shows its kind and range and that of a token also its text, shortened with a trailing mark at a character boundary only when the text is 25 bytes or longer, for every text. The alternate (multi-line) form of a node lists each element of its subtree exactly once in preorder, one line each, indented two spaces per level below it.',
 ['inputs'],'all trees, all elements, all token texts including multi-byte characters around the cut-off',
 'One test prints one ASCII node; the shortening code indexes into UTF-8 text.',
 [API],[('Debug impls for SyntaxNode and SyntaxToken',API)],[],['{:?} and {:#?}'])
p('C29','The typed layer is a faithful view of the untyped one',
 'For every query, iterator and edit, the language-typed tree API gives the same elements as the untyped cursor API on the same tree, with kinds translated by the language\'s mapping and kind filters receiving translated kinds. Converting between typed and untyped handles preserves the element.',
 ['inputs'],'all trees, all elements, all methods, any bijective kind mapping',
 'Tests only use the typed layer with one mapping and few methods; every method is a separate hand-written delegation.',
 [API],[('delegation to cursor',API),('Language::kind_from_raw/kind_to_raw',API)],[],['results of both layers'])
p('C30','Typed-tree helpers find the first or all castable children, in order',
 'Looking up a child of an AST type returns the first direct child node that casts to it, listing children of an AST type returns all such direct child nodes in order, and looking up a token of a kind returns the first direct child token of exactly that kind; none of them ever looks deeper or elsewhere. Cloning a typed node, for update or as a subtree, gives a typed node over the corresponding cloned element.',
 ['inputs'],'all trees, all nodes, all AST types and kinds',
 'No test uses the helpers.',
 [AST],[('ast::support, AstChildren, AstNode default methods',AST)],[],['support::child, children, token; AstNode::clone_for_update, clone_subtree'])
p('C31','Text sizes are exact up to the 32-bit limit and rejected beyond it',
 'For any tree whose text is at most 2^32-1 bytes long, lengths and offsets are exact, however the text is shared and nested. Building a node whose text would be longer panics instead of producing a tree with a wrong length.',
 ['inputs'],'all trees up to and beyond 4 GiB of (shared) text, in builds with and without overflow checks',
 'No test builds a large tree; the wrong result needs 4 GiB of text (easily reached by sharing) and an optimised build.',
 [GN,CU],[('text length accumulated in GreenNode::new',GN)],[],['text_len, text_range'])
p('C32','A rejected edit leaves every tree and handle consistent',
 'When an edit of mutable trees panics - inserting past the end of a child list, inserting an element into its own subtree, inserting an element of an immutable tree, or a panic raised by the caller\'s own iterator - and the panic is caught, all trees and handles involved stay consistent: every handle still reads its content, structure and ranges agree with the text, and further edits and drops work without memory errors.',
 ['histories'],'all edit histories with rejected edits injected at any point and caught',
 'No test edits a tree or catches a panic from an edit.',
 [CU],[('checks before any state is changed in attach_child',CU)],[],['content and structure of all held handles after the caught panic'])

p('C33','Edits and copies share every part they do not change',
 'Making a new version of a tree never copies what stays the same. Editing a green node (replacing, inserting, removing or splicing children), replacing an element at any depth, and editing a mutable tree make new green nodes only for the edited node and its ancestors; every other node and token of the new version is the very same green element (same identity) as in the old version or as was passed in. Wrapping a green node in a tree, taking the green node back, copying a subtree and cloning for update copy no green data at all.',
 ['inputs','histories'],'all green trees, every element in them, all functional edits, replacements, copies and edit histories of mutable trees',
 'The tests never look at identity after an edit; a copy prints and compares the same, so content tests cannot see it.',
 [GN,CU,API],[('splice_children / replace_child rebuild one node from shared children',GN),('replace_with rebuilds the path to the root',CU),('respine',CU)],
 [('children','shared green elements',GN)],['identity of the green node or token behind every element before and after','number of live heap allocations'])
p('C34','Handles keep alive only themselves and their ancestors',
 'What a program keeps in memory is what it holds: a handle to an element keeps that element, its ancestors and the green tree alive and nothing else, so dropping the other handles releases them at once, and dropping the last handle into a tree releases the tree. A traversal of a tree of any size (preorder, descendants, children, token to token) keeps at any moment only a number of elements proportional to the depth, not to the number of elements seen.',
 ['inputs','histories'],'all trees, mutable, immutable and edited, all sets of held handles, all traversals',
 'Retaining too much changes no answer; the tests do not measure memory.',
 [CU,SLL],[('NodeData::rc, parent references, free',CU),('iterators moving from sibling to sibling',CU)],
 [('rc','handles and child data that refer to this element',CU)],['number of live heap allocations while handles are held, during traversals, after drops'])

p('C35','Costs grow as documented',
 'The cost of an operation depends only on what it has to touch. Moving to a neighbouring element, asking a handle for its kind, parent, range (immutable trees) or for equality, cloning handles and green nodes, reading a child by position from a green node, wrapping a green node, copying a subtree and cloning for update do not depend on the number of siblings or on the size of the rest of the tree; finding a child by range and resolving a node pointer are logarithmic in the number of siblings; replacing an element, or editing a mutable tree at one place, depends only on the nodes from the edited place to the root and their direct children, not on what lies in other subtrees; for trees of bounded depth, building (also through a node cache), walking, searching, comparing, hashing, serialising, printing and dropping are linear in the size, and walking, printing and dropping immutable trees is so at any depth.',
 ['inputs'],'wide, deep and branching trees of any size, every position in them, every such operation',
 'The tests use trees of a few elements and do not count steps; a linear scan in place of a binary search or a deep copy in place of a shared reference gives the same answers.',
 [CU,GN,NC,API,AST],[('child_at_range binary search over relative offsets',GN),('sibling lookup by index',CU),('hash table of the cache',NC),('node_at_range in SyntaxNodePtr resolution',AST)],
 [],['number of basic blocks executed and bytes allocated, at two sizes of the same shape'])
p('C36','Walking and releasing trees takes no stack for their depth',
 'On a tree of any nesting depth, these take a bounded amount of stack: preorder and descendants walks, going to children, siblings, parents and ancestors, going from token to token away from a token, printing (Display and Debug), reading, slicing, searching and comparing its text, finding the covering element, resolving node pointers, editing a mutable tree at its innermost node, and dropping handles, in particular the last one into a tree. So thousands of nested levels do not overflow a small thread stack.',
 ['inputs'],'all trees nested thousands of levels deep, all those operations',
 'No test builds a deep tree; recursion in place of a loop gives the same answers until the stack overflows.',
 [CU,ST],[('free releases ancestors in a loop',CU),('Preorder iterates without a stack',CU),('text chunks over a preorder walk',ST)],
 [],['results computed on a thread with a small stack'])

p('C37','Callers\' code called by the library may use the tree, edit it and panic',
 'While the library runs the caller\'s code - kind filters, text visitors, output sinks, serialiser back ends, casts of AST types, iterators of elements to insert - that code may navigate, take, clone and drop handles of any tree and edit mutable trees, also the one being worked on, without memory errors; all handles stay consistent, and an element found meanwhile is a consistent handle of its tree. As long as that code does not edit the tree being worked on, the answer is the same as without it. A panic of that code reaches the caller, and an error of a sink ends the call; all trees and handles stay consistent and nothing is leaked.',
 ['inputs','histories'],'all edit histories with calls that take the caller\'s code, all actions of that code at any of its calls, in immutable and mutable trees',
 'The callbacks of the tests only look at their argument; borrowed green children become dangling only when the callback edits the tree.',
 [CU,API,AST,ST,GN],[('children looked up again after each call of the matcher',CU),('iterator of splice_children run between single insertions',CU),('text chunks visited',ST)],
 [],['answers, content and structure of all held handles after each call; AddressSanitizer; live allocations'])

p('C38','Rejected builder calls and abandoned builds have no effect on what follows',
 'A builder call that panics because it is misplaced changes nothing: after the panic is caught, the builder goes on as if the call had not been made. Dropping a builder half way, or a rejected completion, affects nothing but that build: all later builds, also through the same node cache, give exactly the trees their calls describe and share equal tokens and small nodes as before, and trees built earlier stay intact. Builders working side by side do not influence each other. Nothing is leaked.',
 ['histories'],'all interleavings of builds over any number of caches, with rejected calls and abandoned builds at any point',
 'No test misuses a builder and goes on, abandons a build, or runs two builders side by side.',
 [B,NC],[('checks before any change in start_node_at / finish_node',B),('pending elements owned by the builder, not by the cache',B)],
 [],['later builds, sharing, earlier trees, live allocations'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
