"""What each check runs."""

COMMON = [
    "the extraction reads rustc's own macro-expanded source; comments, attributes and `const` on functions are dropped, and every textual rewrite is declared in the template",
    "Verus, Z3, rustc and the standard library are trusted",
    "functions not listed under functions_under_contract are only covered by the bounded stand-in",
]

BOUNDED = "bounded stand-in on the real crates (choice sequences enumerated or seeded)"
STANDIN = ("Bounded: the functions behind this property are not yet under contract; the real crates are run "
           "against an independent oracle on enumerated and seeded inputs (bounds in the evidence file).")

PROPS = {
    "C01": {"level": "proof", "verus": ["json_fmt.rs", "json_tree.rs", "json_value.rs"],
            "technique": "Verus contracts on every method of the JSON formatter, extracted from /repo, and an induction over value trees",
            "note": "Every formatter method is proved to write exactly the bytes its contract allows and to keep the state the next one needs; a lemma by induction over value trees "
                    "turns that into: a value that streams successfully wrote one document of RFC 8259's grammar that mirrors it. The outermost functions (text, bytes, fmt and io sinks, JsonStr) "
                    "and JsonStr's own streaming are under contract with it. The defaults the formatter inherits (binary, record tuples, items, borrowed text) are under contract as applied to it.",
            "assumptions": ["a value makes the calls of its tree's events, in order, until one fails (`drive`; C12 for built-in types)", "a String or a Vec takes everything written to it", "itoa prints decimal integers and ryu prints JSON numbers",
                            "text tagged as JSON, and labels hinted to be identifiers, are what they claim to be"]},
    "C02": {"level": "proof", "verus": ["json_text.rs", "json_fmt.rs"],
            "technique": "Verus contracts on escape_str, its table and the formatter's text methods, extracted from /repo",
            "note": "The bytes escape_str writes are proved to read back, by RFC 8259's rules, as exactly the text, for every string and for every split into fragments.",
            "assumptions": ["core::fmt::Write is modelled by its documentation (output, or failure and a prefix)", "slicing a str at character boundaries gives the bytes between them"]},
    "C03": {"level": "proof", "verus": ["json_number.rs", "json_fmt.rs"],
            "technique": "Verus contracts on the number methods and the number text handler, extracted from /repo",
            "note": "Number text of the tag's grammar, however fragmented, is proved to be rewritten to a JSON number of the same value, integers to be written as their decimal digits; "
                    "that ryu's output parses back to the same bits is bounded (stand-in).",
            "assumptions": ["itoa prints decimal integers and ryu prints JSON numbers", "a number's text is shorter than the address space"]},
    "C04": {"level": "proof", "verus": ["json_io.rs", "json_fmt.rs", "json_tree.rs"],
            "technique": "Verus contracts on the io adapter's write loop, the outermost functions and the error paths of every formatter method, extracted from /repo",
            "note": "The write loop is proved to terminate, to report an error exactly when the sink fails, and to have handed on all bytes or a prefix; every formatter method is proved to write only while "
                    "the sink works and to report its failure. The outermost functions are proved to succeed only if the sink has the whole document and, on failure, to have left it a prefix and to report the sink's own error.",
            "assumptions": ["a value makes the calls of its tree's events, in order, until one fails (`drive`)", "std::io::Write accepts at most what it is given and nothing when it fails", "a sink reports Interrupted finitely often"]},
    "C05": {"level": "proof", "noalloc": True, "verus": ["buffer.rs", "fragments.rs", "array_vec.rs", "buffer_noalloc.rs"],
            "technique": "Verus contracts on every method of the value buffer, its part slices and its owned forms, extracted from /repo",
            "note": "Each of the buffer's stream methods is proved to append exactly the event it is told, in a representation invariant over the parts and the open containers; streaming back is proved to send exactly the events "
                    "the parts stand for (text and binary joined), for every nesting and length; owning, cloning, taking and collecting are proved to keep them."
                    " The crates built without an allocator are under the same contracts, where running out of room is an error that leaves what is held as it was.",
            "assumptions": ["a value streamed into the buffer makes the calls of its events, in order, until one fails (`drive`)", "derived Clone copies the parts",
                            "the recursion over nested parts is by the same contract (partial correctness)", "transmuting parts that borrow nothing to a longer lifetime, or a slice to its transparent wrapper, does not change them",
                            "without an allocator: MaybeUninit and the casts of ArrayVec are modelled by the places that are set; a debug build without the no_debug_assertions feature panics when it runs out of room, as documented"]},
    "C06": {"level": "proof", "noalloc": True, "verus": ["buffer.rs", "fragments.rs", "array_vec.rs", "nested_noalloc.rs", "buffer_noalloc.rs"],
            "technique": "Verus contracts on every method of the value buffer, extracted from /repo",
            "note": "The representation invariant is proved to hold after every call, whatever the order of calls and however they fail, no call to panic, an end with nothing open to be an error, `is_complete` to say exactly whether "
                    "everything begun has ended, and an incomplete buffer to be streamable without a panic."
                    " The crates built without an allocator are under the same contracts, where running out of room is an error that leaves what is held as it was.",
            "assumptions": ["an end that follows another begin than its own is taken as that begin's end (the buffer ignores an end's arguments)",
                            "without an allocator: MaybeUninit and the casts of ArrayVec are modelled by the places that are set; a debug build without the no_debug_assertions feature panics when it runs out of room, as documented"]},
    "C07": {"level": "proof", "noalloc": True, "verus": ["fragments.rs", "fragments_noalloc.rs"],
            "technique": "Verus contracts on every method of the fragment buffers and their collectors, extracted from /repo",
            "note": "Every way of making, pushing to, clearing, borrowing from and owning a text or binary buffer is proved to hold exactly the concatenation, for every mix of borrowed and short-lived fragments, and to hand out "
                    "a borrow only of the complete content; collecting a value or what a Display prints is proved to hold exactly what they sent or printed, or to fail."
                    " The crates built without an allocator are under the same contracts, where running out of room is an error that leaves what is held as it was.",
            "assumptions": ["a value makes the calls of its events, in order, until one fails (`drive`)", "Display prints through the writer it is given, and passes its failure on", "Cow, String and Vec follow their documentation (appending concatenates)", "transmuting a fragment that borrows nothing to a longer lifetime does not change it"]},
    "C08": {"level": "proof", "verus": ["degrade.rs"],
            "technique": "Verus contracts on the default stream methods extracted from /repo",
            "note": "Every default method of the stream trait is proved to send only events with the same canonical meaning, for every stream and value obeying the trait contracts; "
                    "text produced by Display for integers is uninterpreted (bounded stand-in covers it)."},
    "C09": {"level": "proof", "verus": ["convert.rs"],
            "technique": "Verus contracts on every conversion of a value and on every method of the streams behind them, inherited defaults included, extracted from /repo",
            "note": "Each conversion is proved to answer, for every value and whatever events it sends, either nothing or exactly the value's content in the wanted type, and to answer whenever the content fits; "
                    "specialised conversions of the built-in types are proved against the same contract. `tag()` is only covered by the bounded stand-in.",
            "assumptions": ["a value sends the same events to every stream that takes them, and fails of itself or not at all", "an f32 widens to the f64 of the same value",
                            "the text that stands for an integer wider than 64 bits is uninterpreted"]},
    "C10": {"level": "proof", "noalloc": True, "verus": ["index.rs", "index_noalloc.rs"],
            "technique": "Verus contracts on every method of Index, Label and Tag, extracted from /repo",
            "note": "Constructors, views, comparison, hashing, hints, cloning and owning are proved to keep the number, the text and the name, for all values. "
                    "The crates built without an allocator are under the same contracts. Labels' raw pointers are modelled by the text they point at; that they stay valid is only exercised by the bounded stand-in.",
            "assumptions": ["a raw pointer to a string reads as the string it was made from", "the tag hash is a function of the tag's name (const fn)",
                            "i128's own comparison and hashing follow its value"]},
    "C11": {"level": "proof", "verus": ["adapters.rs"],
            "technique": "Verus contracts on the forwarding impls extracted from /repo",
            "note": "Every forwarding method is proved to make exactly the same call on the wrapped stream or value and to return its result, with lifetimes of lent data tracked as ghost state."},
    "C12": {"level": "proof", "verus": ["values.rs"],
            "technique": "Verus contracts on the Value implementation of every built-in type, extracted from /repo",
            "note": "Each implementation, its loops and all sixteen tuple sizes included, is proved to send exactly the events its content stands for, hints included, for every value, every stream and every point of failure.",
            "assumptions": ["iterating a standard map visits each of its len() entries once", "Display prints through the writer it is given, and passes its failure on",
                            "str::len and char::encode_utf8 follow their documentation"]},
    "C13": {"level": "proof", "verus": ["by_ref.rs", "fragments.rs", "buffer.rs"],
            "technique": "Verus contracts on every implementation of sval_ref::ValueRef, extracted from /repo",
            "note": "Each implementation (references, boxes, sequences, all sixteen tuple sizes, the Ref wrapper, the fragment buffers, buffered values) is proved to send exactly the events of the value, lent for the reference's lifetime, and to report exactly the "
                    "stream's failures. Ref::new_borrowed (unsafe) is covered by the bounded stand-in.",
            "assumptions": ["the compiler enforces lifetimes: what is lent outlives 'sval"]},
    "C14": {"level": "proof", "verus": ["flatten.rs"],
            "technique": "Verus contracts on sval_flatten's flattener, index allocator, label buffer and each kind of parent, extracted from /repo",
            "note": "Every method of Flattener is proved to take one step of a function over (depth, key, enum, index, parent, label) states; lemmas over that function show that any map, sequence, record, tuple or record tuple, "
                    "and any enum of one, arrives on each kind of parent item by item under its documented key, with nested containers intact. The code the derive macro writes for `#[sval(flatten)]` is covered by the bounded stand-in.",
            "assumptions": ["a value makes the calls of its events in order and stops at the first that fails", "indexes stay within isize", "itoa, ryu and Display of an index print the number",
                            "closures that capture a mutable reference are inlined at the call of with_label / with_index_to_label (both proved to call their argument once)"]},
    "C15": {"level": "proof", "verus": ["fmt.rs", "fmt_values.rs"],
            "technique": "Verus contracts on sval_fmt's stream, token writers, escaping and entry points, extracted from /repo, with an induction over every value",
            "note": "Every provided method of TokenWrite is proved to write exactly its text (and kind), every writer to keep that, and every method of the stream to make exactly the calls of its event; an induction over the tree of any value shows that its events make the calls of its text. "
                    "Escaping is proved for every text and split (the loop over characters and slices). The closure given to write_escape_debug, which borrows mutably, is inlined, as that function's own contract allows.",
            "assumptions": ["itoa, ryu and Display print the number they are given (with default flags)", "char::escape_debug gives a character itself or a longer sequence", "format_args! writes the pieces Display or Debug print, in order, until a write fails", "what follows a failure is an error mark, whose text is not specified"]},
    "C16": {"level": "proof", "verus": ["serde_value.rs", "values.rs"],
            "technique": "Verus contracts on every serializer method of sval_serde::ToValue, extracted from /repo",
            "note": "Each of the serializer's methods is proved to send exactly the events of the matching value and to report exactly the stream's failures; begin and end are proved to agree through the serializer's fields. "
                    "The serializer's own stream field, always a `&mut S`, is spelled out as one.",
            "assumptions": ["a Serialize implementation drives the serializer as serde documents", "a tuple has fewer than usize::MAX elements", "Display prints through the writer it is given"]},
    "C17": {"level": "proof", "verus": ["serde_ser.rs"],
            "technique": "Verus contracts on every function of sval_serde::ToSerialize's serializer streams, extracted from /repo",
            "note": "Every stream method of the serializer side is proved to make exactly the serde call its event stands for (lengths, names and variant indexes included), to report exactly serde's failures, and to hand each element, key and field on unchanged. "
                    "That the flat events arrive as those nested calls is sval_nested's part (C18), covered here by the bounded stand-in.",
            "assumptions": ["a nested value hands its content to the stream it is given (C18)", "a serde Serializer is a function of the calls made on it", "Result::unwrap_or_else follows its documentation"]},
    "C18": {"level": "proof", "noalloc": True, "verus": ["nested_flat.rs", "nested_enum.rs", "nested_noalloc.rs"],
            "technique": "Verus contracts on sval_nested's flat-to-recursive stream, its enum queue, its provided methods and entry points, extracted from /repo",
            "note": "Every event method of the flat stream is proved to do exactly what `nxt` says for every state, buffer and event: the calls made on the recursive stream and their arguments, in order, with each part's events whole; and to fail only when the stream behind it or the value fails, or nothing in `nxt` is possible. "
                    "Without an allocator, labels, the queue and the error are under contract; the flat stream is the same code. The bounded stand-in runs beside it.",
            "assumptions": ["a value makes the calls of its events (`drove`)", "TextBuf, BinaryBuf and ValueBuf as proved in specs/fragments.rs and specs/buffer.rs (C05, C06)", "FnMut is spelled Fn where the closure does not write to what it captures; the value a closure writes to `r` is its result instead", "a nested enum's stream type is spelled as its parent's", "VecDeque, Option::cloned and mem::take follow their documentation"]},
    "C19": {"level": "translation_validation", "verus": ["derive_index.rs", "derive.rs"],
            "technique": "Verus contracts on the code the derive macro writes for a catalogue of types, expanded from /repo, and on the macro's index allocator",
            "note": "The stream and tag functions that /repo's macro writes for each type of a catalogue (every kind, flag and attribute, and their combinations) are proved, for every field value of every field type, every stream and every point of failure, "
                    "to send exactly the events documented for the type. The macro's index allocator is proved for every sequence of fields or variants. Over types the check is bounded by the catalogue: no contract reaches from the macro's tokens to their meaning.",
            "assumptions": ["flattening sends what C14 proves of it, and indexes stay within isize", "Index::from of an isize is Index::new_isize (C10)", "quote! writes an isize as one literal of its value",
                            "the catalogue stands for the types users derive"]},
}

NOT_APPLICABLE = []
