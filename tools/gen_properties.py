#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
W="pkg/world/world.go"; T="pkg/world/tree.go"; I="pkg/world/item.go"; R="pkg/world/rel.go"
A="pkg/app/main.go"; C="pkg/app/command.go"; G="pkg/grammar/main.go"; PEG="pkg/grammar/grammar.peg.go"; E="pkg/errors/main.go"; S="pkg/persistence/main.go"

prop("C01","A world written as text reads back as the same world",
 "Rendering any world to its text form and reading that text back yields a world with the same version, id, name and description, the same items with every attribute, the same nesting, and the same relationships with every attribute. This holds for every world built through the API or commands out of text the grammar can express (letters, digits, spaces and the grammar's punctuation; also empty texts). Rendering the reloaded world and reading it again changes nothing further.",
 ["histories","inputs"],"all worlds reachable by operation sequences, over all grammar-expressible texts",
 "Tests round-trip two hand-written worlds and one world of attribute-less items with fixed ids; the claim ranges over every reachable world and every combination of attribute values, names and nesting.",
 [W,T,I,R,PEG],[("World.String / FromString",W),("Tree.String",T),("Item.String / ItemFromString",I),("Rel.String / RelFromString",R),("WorldObject rule",PEG)],
 [dict(name="Items, Rels, Tree",meaning="three stores that must be serialised consistently",where=W)],["World.String","FromString","world getters"])
prop("C02","Worlds saved to a directory load back by name, each unchanged",
 "Saving a world and loading it by its name, or by the path of its file, returns an equal world, whatever other worlds have been saved to the same directory before, since or at the same time, and saving again under a name replaces exactly that one. Listing names exactly the worlds saved there. Saving never creates or changes a file outside the chosen directory, and loading a name never saved is an error.",
 ["histories","inputs","schedules"],"all sequences of save, overwrite, load and list, also at the same time, over all world names and contents",
 "One test saves and loads one world with one name; names with spaces, dots or the store's own file extension, overwrites by shorter worlds, and several worlds in one directory are never tried.",
 [S,W],[("Save","pkg/persistence/main.go"),("Load","pkg/persistence/main.go"),("ListWorlds","pkg/persistence/main.go")],
 [dict(name="directory",meaning="where .world files live",where=S)],["Persistence interface","files in the directory"])
prop("C03","A save that fails part-way keeps the previously saved world",
 "When a save fails because the storage accepts only part of the data or a file operation fails, the save reports an error, and loading that name afterwards still returns the world of the last successful save, never a truncated or partial one. A process stopped at any point of a save leaves the previous or the completely new world under that name. Other saved worlds are untouched and the listing shows no world that was never saved.",
 ["fault_sequences","crash_points"],"every write cut-off point (file-size limit), every failing or killed file operation, in any sequence of saves of any worlds",
 "No test injects a write failure; the property is about every byte position at which storage can give out.",
 [S],[("Save",S)],[],["Persistence.Save / Load under a file-size limit, failing system calls and kills"])
prop("C04","Items always form one forest that moves and deletes keep intact",
 "After any sequence of creating, deleting, nesting and freeing items, every existing item appears exactly once in the hierarchy, deleted items never appear, parent and component views agree, and no item is its own ancestor. Nesting moves an item with everything under it to the new parent, freeing moves it to the top level, and deleting an item hands its direct components to its parent. A nest that would put an item under itself or its own descendant changes nothing.",
 ["histories"],"all sequences of create, delete, nest and free, including repeated moves of the same items",
 "Tests build fixed trees by hand and nest five items once; repeated moves, moves of subtrees, deletes in the middle and attempted cycles are never combined.",
 [T,W],[("AddOrMove",T),("Delete",T),("Nest / Free / ItemDelete",W)],
 [dict(name="tree.parent / tree.components",meaning="two directions of the same relation",where=T)],["Parent, Components, ItemParent, ItemComponents, In, text form"])
prop("C05","Item records behave like a keyed store with partial updates",
 "Creating an item stores the given attributes and returns them; creating an existing id returns the stored item unchanged and reports a conflict only if the given attributes differ. Setting changes exactly the attributes given and leaves the rest, deleting removes exactly that item, and fetching or listing always shows the current attributes of exactly the existing items (a positive limit returns at most that many distinct existing items, as many as available). Every item type name is accepted and reported back as that type.",
 ["histories","inputs"],"all sequences of item operations over all attribute subsets, types and limits",
 "Tests never set or update an attribute through the store; they cover creation with no attributes only.",
 [W,I],[("ItemCreate / ItemSet / ItemDelete / ItemFetch / ItemList",W),("itemSet, equalItemParams",W),("ItemTypeFromString",I)],
 [dict(name="Items",meaning="id to item",where=W)],["Operations interface, Item(), Err()"])
prop("C06","Relationships stay consistent with the items they connect",
 "At most one relationship exists per ordered pair of items, relationships of different pairs are never confused, and both ends always name existing items and show their current attributes. Deleting an item deletes exactly the relationships that touch it; deleting a relationship deletes exactly that one; setting changes exactly the attributes given. Creating one returns it with its attributes, and is refused when either end is missing; creating an existing one keeps the stored attributes and reports a conflict only if they differ from those given.",
 ["histories","inputs"],"all sequences of item and relationship operations over all ids, including ids containing punctuation such as '::'",
 "Tests create chains of bare relationships once; they never set, delete, re-create, or delete an end, and no test uses ids that contain separator characters.",
 [W,R],[("RelCreate / RelSet / RelDelete / ItemDelete",W),("relIdFromIds",R)],
 [dict(name="Rels",meaning="relationship store keyed by the pair of ids",where=W)],["RelFetch strict, RelList, Rel(), Err()"])
prop("C07","Relationship queries return exactly the matching relationships",
 "A strict query between two items returns exactly the relationship from the first to the second, if any; a non-strict one returns exactly the relationships from the first item or anything nested under it to the second item or anything nested under it. Queries for relationships to an item, or from an item, likewise return exactly those that end (or start) at the item itself when strict, and at the item or anything nested under it when not. Listing returns every relationship once, or up to the positive limit given.",
 ["histories"],"all worlds reachable by operation sequences, all pairs of ids, strict or not",
 "No test issues a relationship query on a world with nesting, and none calls the to/from queries at all.",
 [W,T],[("RelFetch, RelTo, RelFrom, RelList",W),("GetDescendantIds",T)],[],["RelFetch, RelTo, RelFrom, RelList"])
prop("C08","Undoing an executed command restores the world exactly",
 "For every command and every world, undoing the command right after executing it restores the world exactly as it was: items and all attributes, nesting, and relationships with all attributes. Undoing a whole executed sequence in reverse order restores every intermediate world in turn, and re-executing an undone command gives the same world as the first execution. Commands that only read, and commands that report an error, change nothing either way.",
 ["histories","inputs"],"all commands in all reachable worlds, and all command sequences undone in reverse order",
 "No test calls Undo on anything.",
 [C],[("Execute / Undo of each command type",C)],
 [dict(name="oldParams, oldParentIds, noCreate, ...",meaning="what each command remembers for its undo",where=C)],["Command.Execute / Undo, world state"])
prop("C09","Session history with undo and redo always matches the world",
 "In any interleaving of executed commands, undos and redos, the world equals what running exactly the commands in the history, in order, on the initial world produces. Undo steps back one command and redo steps forward one; undo is offered exactly when the history is non-empty and redo exactly when something undone has not been overwritten; executing a new command discards what could have been redone. Rejected input and failed commands do not enter the history.",
 ["histories"],"all interleavings of commands, failing commands, undo and redo",
 "No test calls undo or redo or reads the history.",
 [A,C],[("exec / undo / redo / History / CanUndo / CanRedo",A)],
 [dict(name="commands, commandsIdx",meaning="command log and current position",where=A)],["App interface plus exported wrappers of undo and redo"],
 "undo and redo are not exported; a build-tagged file in pkg/app exposes them")
prop("C10","Every command line means exactly what it says",
 "A command line written in the documented syntax is read as exactly its resource, action, ids, attributes and flags, for every id and value the grammar can express, bare or quoted, with any amount of white space between words. A bare id is always taken as one whole word, also when it begins with a reserved word, and quoted text is taken verbatim, including spaces and reserved words. Text that is not a command is never read as one: extra or missing words, unknown attributes or types, and characters outside the syntax are rejected.",
 ["inputs","programs"],"all command forms times all ids, values, quoting, attribute orders, flags and white space",
 "The table test has 29 fixed lines with simple ids; it has no quoted id in lists, no id beginning with a reserved word, no multi-attribute lines and no rejected lines.",
 [PEG,G,"pkg/grammar/grammar.peg"],[("Command rules and actions",PEG),("cleanString",G)],[],["Parse result"])
prop("C11","Response and world text is read back as exactly what it contains",
 "Reading a response gives its status code, its message and the kind and content of its object: every item, every relationship, the id list, the tree, or the world with its version, id, name, description, nesting, items and relationships, each exactly once and in order; the text it gives for the object reads as that object again. Responses with trailing or missing parts are rejected, and so are world and tree texts that lack any part of their frame.",
 ["inputs"],"all well-formed responses, world texts and trees over all grammar-expressible texts",
 "Five fixed responses and one fixed tree are tested, all without item attributes.",
 [PEG,G],[("Response, WorldObject, Tree, ItemObject, RelObject rules",PEG)],[],["Parse result: Response, WorldParams, ItemStrings, RelStrings, Tree"])
prop("C12","Any input line gets a well-formed answer and never breaks the session",
 "Whatever text is sent to a session, it terminates without crashing and answers with text that the grammar reads as a response or a status with a numeric code. Input that is not a command is answered with code 400, leaves the world and the history unchanged, and later commands behave as if it had never been sent.",
 ["inputs","histories"],"all byte strings, in all reachable sessions",
 "Tests send only well-formed input to the parser, and only one command to a session.",
 [A,PEG,G,E],[("Exec",A),("Parse",G),("TopolithError.String",E)],[],["App.Exec return value, App.World, App.History"])
prop("C13","Answers to commands tell the truth about the world",
 "For every command in every session the answer reports the actual outcome: created, fetched, set or cleared items and relationships are shown with their current attributes, existence and containment questions get the true yes or no, and listings (also the components of one item, relationships to or from an item, and limits) show exactly the matching objects. Commands that succeed answer 200 and have exactly the effect on the world that their action describes; fetching or setting something missing, relating missing items, and nesting a missing item, under a missing item, or under one of its own descendants answer with an error code.",
 ["histories","inputs"],"all command sequences, compared with a reference model after every command",
 "One test sends the single command 'world' to an empty session.",
 [A,C,W],[("Exec",A),("InputToCommand",C),("Execute of each command type",C)],[],["App.Exec answers, App.World state"])
prop("C14","Items, relationships and trees survive their own text form",
 "Reading the text form of any single item, relationship or tree (also a subtree whose root is an item) yields an equal object, including all attributes, types and nesting, for all grammar-expressible texts. Reading a tree also yields each item in it. Text of another kind or with missing parts is rejected with an error, never accepted and never a crash.",
 ["inputs"],"all items, relationships and trees; all texts of the wrong kind",
 "Three fixed objects are tested; no test uses types, tree items with attributes, subtrees, or text of the wrong kind.",
 [I,R,T],[("ItemFromString / Item.String",I),("RelFromString / Rel.String",R),("TreeFromString / Tree.String",T)],[],["FromString functions"])
prop("C15","Equality of worlds, items, relationships and trees is exact",
 "Two items, relationships, trees or worlds compare equal exactly when all their observable content is equal, independent of the order in which they were built or are listed. A difference in any single attribute, in any one parent, or in the presence of any item or relationship makes them unequal, and comparison is symmetric.",
 ["inputs","histories"],"all pairs of equal-content objects built in different orders, and all single-point differences",
 "The comparison functions are only used by tests on worlds expected to be equal, with one relationship per source item; no test checks that a difference is noticed.",
 [W,T,I,R],[("WorldEqual",W),("TreeEqual",T),("ItemEqual",I),("RelEqual",R)],[],["the four Equal functions"])
prop("C16","Worlds, sessions, parses and errors never affect one another",
 "Operations on one world, session, tree, parse result or error value never change another one, however they are interleaved: each ends in the same state as when run alone. Items, relationships and lists handed out earlier never change when the world changes later, and modifying them never changes the world, nor does an operation change the parameters it was given.",
 ["histories","schedules"],"all interleavings of operation sequences on several independent objects",
 "Every test uses one object at a time.",
 [W,T,G,E],[("emptyTree, newTree",T),("ItemList, RelList, Components results",W),("WithData / WithError value receivers",E),("Parse",G)],[],["state of each object against a solo run"])
prop("C17","Errors keep their code, message, data and causes",
 "An error built up with a code, description, data and causes carries exactly what was put in, in order, and deriving a new error from it never changes the original or any other derived one. Its text form is always readable by the grammar as a status with the same code and, for messages of grammar-expressible text, with exactly the description and message. The first cause is reachable by the standard unwrap functions, joined errors keep every non-nil error, and a known code sets its standard description.",
 ["inputs","histories"],"all chains of builder calls, branching from shared prefixes",
 "One fixed chain is rendered and only its statement type is checked.",
 [E,PEG],[("UseCode, WithDescription, WithData, WithError, Join, String, Unwrap",E),("StatusObject rule",PEG)],[],["errors API, Parse of the text form"])
prop("C18","A refused operation reports why and changes nothing",
 "When an operation on a world is refused (empty id, missing item or relationship, unknown type, conflicting attributes, nesting under one of its own descendants or under a missing parent), it reports an error and leaves every item, attribute, nesting and relationship as it was. A change that succeeds reports no error, also right after one that failed, and a returned item or relationship is never left over from an earlier operation.",
 ["histories","inputs"],"all sequences mixing valid and invalid operations",
 "No test performs an invalid operation on a world.",
 [W],[("latestErr, latestItem, latestRel, resetLatestTrackers",W),("itemSet",W)],
 [dict(name="latestItem/latestRel/latestErr",meaning="outcome of the last operation",where=W)],["Err(), Item(), Rel() and the world state"])
prop("C19","Damaged or foreign text is never loaded as a broken world",
 "Reading any text as a world either fails with an error or yields a well-formed world: items forming one forest, relationships between existing items, and able to be written and read back to an equal world. A text with a relationship to or from an item it does not contain is rejected. A world text cut off at any point before its end is always rejected, and so is text of any other kind, such as a single command, item, tree or response.",
 ["inputs","crash_points"],"all truncations and mutations of world texts, and texts of all other kinds",
 "Tests read only three well-formed world texts.",
 [W,PEG,S],[("FromString",W),("WorldObject rule",PEG),("Load",S)],[],["FromString result"])
prop("C20","The web bridge gives the same answers as the engine itself",
 "The compiled web module, given any sequence of input lines, returns for each a JSON reply whose raw text is exactly what the engine answers for that sequence, whose status is the status code in that answer, and whose data is the answer's parsed object and status; replies with a code other than 200 carry the code and message in their error part, replies with code 200 an empty error part. No input, including malformed text and wrong argument counts, makes the module crash or stop answering.",
 ["histories","inputs"],"all sequences of input lines sent through the JavaScript entry point",
 "The web module has no tests at all.",
 ["cmd/wasm/main.go",A,PEG],[("topolithSend / toReply / jsReplyToJsValue","cmd/wasm/main.go")],[],["topolithSend in the wasm build run under node"])
prop("C21","Replaying the recorded command text rebuilds the world",
 "Sending the text of each command in a session's history, in order, to a fresh session rebuilds an equal world with an equal history. The recorded text of each command is the line that was sent.",
 ["histories"],"all command sequences",
 "No test reads the history.",
 [A,C],[("History",A),("CommandBase.String",C)],[],["App.History, Command.String, App.World"])
prop("C22","A tree answers and changes as one consistent hierarchy",
 "On any tree and from any of its nodes, adding places a new item under that node, adding an item already in the tree moves it there with all its components, and deleting an item that has a parent removes it and hands its components to that parent. Membership, lookup, descendants, components, parent, root and emptiness always agree with the hierarchy those changes describe. Adding a node's own ancestor below it, or no item, is an error that changes nothing.",
 ["histories"],"all sequences of add, move and delete issued at any node of any tree",
 "Tests call these on fixed two-level trees without ever moving or deleting.",
 [T],[("AddOrMove, Has, Find, Delete, GetDescendantIds, Components, Parent, Root, Empty",T)],
 [dict(name="tree",meaning="item, parent, components",where=T)],["Tree interface via TreeFromString"])
prop("C23","The console answers every line as one continuing session",
 "Each line entered in the interactive console prints exactly the answer the engine gives to that line in one session that continues from the first line to the last. A blank line prints nothing, a line that cannot be read is reported and changes nothing, and no line ends the console or keeps later lines from being answered.",
 ["histories","inputs"],"all sequences of lines entered in the console",
 "The console program has no tests at all.",
 ["cmd/cli/main.go",A],[("executor, newExecutor","cmd/cli/main.go")],[],["standard output of the built console program, fed lines"])
prop("C24","The console suggests exactly the words that complete what is typed",
 "While a line is being typed, the console suggests exactly those of its words that begin with the text before the cursor, without regard to case, each once and in a fixed order, whatever follows the cursor and whatever was entered before. With nothing typed it suggests every word with which a command can begin. Asking for suggestions changes nothing: every entered line is answered as if nothing had been typed and suggested in between.",
 ["histories","inputs"],"all texts before and after the cursor, at any point of all sequences of entered lines",
 "The console program has no tests at all.",
 ["cmd/cli/main.go",A],[("completer","cmd/cli/main.go")],[],["suggestions of the built console program for a text and cursor"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
