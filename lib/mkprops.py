import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
p("C01","JSON output is one well-formed document that mirrors the value",
  "Whatever value is streamed, JSON formatting never panics, and when it succeeds the output is exactly one well-formed JSON document whose objects, arrays, keys and leaves mirror the value's structure and order. A map key that is not a plain scalar is reported as an error rather than written as broken JSON. Text tagged as JSON or as a number is trusted to be what its tag says.",
  ["inputs","programs"],"every value: any nesting of scalars, text, binary, sequences, maps, records, tuples, tags and enums, however its text is split into fragments",
  "The tests compare a few dozen fixed values with fixed strings; the formatter is a state machine (delimiters, enum nesting, key position, tags) whose states only combine in nestings no test enumerates.",
  ["json/src/to_fmt.rs","json/src/tags.rs","json/src/to_string.rs","json/src/to_vec.rs","json/src/to_io.rs","json/src/value.rs"],[("Formatter stream implementation (delimiters, keys, enums, tags)","json/src/to_fmt.rs"),("outermost functions","json/src/to_string.rs"),("JsonStr streaming","json/src/value.rs")],["sval_json::stream_to_string","sval_json::stream_to_fmt_write"])
p("C02","JSON strings are escaped losslessly",
  "Every piece of text or object key written as a JSON string is quoted so that parsing the JSON string gives back exactly the original text, for every sequence of Unicode characters and every way of splitting it into fragments. No control character, quote or backslash reaches the output unescaped.",
  ["inputs"],"every Unicode string and every split into fragments, including keys, tags and labels",
  "Tests try a handful of strings; escaping is a per-byte table plus run-copying whose errors show only at particular bytes, positions or fragment boundaries.",
  ["json/src/to_fmt.rs","json/src/tags.rs"],[("escape_str and its byte table","json/src/to_fmt.rs"),("fragment handling in the formatter","json/src/to_fmt.rs")],["sval_json::stream_to_string"])
p("C03","JSON numbers are valid and exact",
  "Every number written as a bare JSON number follows the JSON number grammar and denotes exactly the value that was streamed; finite binary floating point numbers parse back to the same bits. Values JSON numbers cannot express (NaN, infinities) become null or text, and text tagged as a number is only rewritten in ways that keep its numeric value.",
  ["inputs"],"every integer of every width, every floating point bit pattern, and every arbitrary-precision number text in any split into fragments",
  "Tests sample a few numbers; the number rewriting is a character-level state machine and the integer domain is 2^128.",
  ["json/src/to_fmt.rs"],[("number formatting and the number text handler","json/src/to_fmt.rs")],["sval_json::stream_to_string"])
p("C04","JSON sink failures and short writes are never swallowed",
  "When the sink a JSON document is written to fails or stops accepting bytes at any point, streaming reports an error, and the bytes accepted up to then are a prefix of the document. When streaming reports success, the sink received the complete document, whatever sizes its writes were accepted in.",
  ["fault_sequences","inputs"],"every failure point and every pattern of short writes and interruptions of the sink, for every document",
  "The tests only write to sinks that always succeed.",
  ["json/src/to_io.rs","json/src/to_fmt.rs","json/src/to_string.rs","json/src/to_vec.rs"],[("adapter from byte sinks to text sinks","json/src/to_io.rs"),("error propagation in the formatter","json/src/to_fmt.rs")],["sval_json::stream_to_io_write","sval_json::stream_to_fmt_write"])
p("C05","Buffering a value and streaming it back loses nothing",
  "A value collected into a buffer and streamed back out produces the same data as the original: the same structure in the same order, the same scalars, text, bytes, tags, labels and indexes with their hints. That stays true when the buffer is made owned, cloned or buffered again.",
  ["inputs","programs"],"every value of the data model, at any nesting depth and with any fragmentation of its text and bytes",
  "Tests buffer a fixed list of small values; the flat encoding keeps relative lengths that go wrong only for particular nestings and sibling orders.",
  ["buffer/src/value.rs"],[("flat part encoding with back-patched lengths","buffer/src/value.rs"),("streaming of stored parts","buffer/src/value.rs")],["sval_buffer::ValueBuf::collect","sval_buffer::stream_to_value"])
p("C06","Broken streams into buffers are errors, never panics or false success",
  "Whatever sequence of calls a buffer receives, including unbalanced, misplaced, truncated or failing ones, it never panics, and an incomplete value is never reported as complete. When the value being buffered reports an error, so does the buffering.",
  ["histories","fault_sequences"],"every sequence of stream calls on a buffer, well formed or not, and every point at which the buffered value fails",
  "Tests only feed well-formed streams; malformed histories are unbounded and each wrong call order reaches different buffer state.",
  ["buffer/src/value.rs","buffer/src/fragments.rs"],[("stack of open parts","buffer/src/value.rs"),("error slots of buffers","buffer/src/error.rs")],["sval_buffer::ValueBuf","sval_buffer::TextBuf"])
p("C07","Text and binary buffers hold exactly the concatenated fragments",
  "A text or binary buffer always holds exactly the concatenation of the fragments pushed into it since it was created or last cleared, whatever mix of borrowed and short-lived fragments was pushed. It hands out a borrow of the original data only when that borrow is the complete content.",
  ["histories","inputs"],"every sequence of borrowed and computed fragments, empty ones included, interleaved with clears and conversions",
  "Tests push a few fragments; whether content stays borrowed or is copied depends on the whole history of pushes.",
  ["buffer/src/fragments.rs"],[("fragment buffer with copy on second fragment","buffer/src/fragments.rs")],["sval_buffer::TextBuf","sval_buffer::BinaryBuf"])
p("C08","Simpler streams receive an equivalent value",
  "A stream that supports only part of the data model receives, in place of everything it leaves to the defaults, simpler events that stand for the same value: integers keep their value, binary its bytes, maps their entries, records their labels, tuples their order, enums and tags their content. Nothing is reordered, dropped or duplicated, and a failure stops the stream at that point.",
  ["inputs","programs"],"every event of the data model with every argument, for every stream whatever subset of methods it overrides",
  "Tests run a few values through a few concrete streams; the guarantee is about every subset of overridden methods and every argument value.",
  ["src/stream.rs","src/data/number.rs"],[("default implementations of the stream methods","src/stream.rs"),("arbitrary precision numbers","src/data/number.rs")],["sval::Stream","sval::default_stream"])
p("C09","Converting a value to a primitive never changes it",
  "When a value converts to a boolean, an integer, a floating point number, text or bytes, the result is exactly the value that streaming it would produce; a conversion that would need to truncate, wrap, round or concatenate answers that there is none. An integer converts to every integer type of its own signedness that it fits, and text or bytes that are one borrowed piece do convert.",
  ["inputs"],"every value that streams a scalar, text or binary, and every target type",
  "Tests convert a handful of values; the domain is all integers of all widths against all targets.",
  ["src/value.rs","src/data/number.rs","src/data/option.rs"],[("conversion streams","src/value.rs")],["sval::Value::to_i64","sval::Value::to_text"])
p("C10","Indexes, labels and tags keep their identity",
  "An index keeps the exact number it was made from: every numeric view is either that number or absent, and equality, ordering and hashing follow the number alone. A label keeps its exact text and hint through borrowing, cloning and being made owned, and tags compare equal exactly when they were made from the same name.",
  ["inputs"],"every integer of every constructor's range, every label text and hint, and every pair of tag names",
  "Tests try a few small numbers and names.",
  ["src/data.rs","src/data/tags.rs"],[("index views","src/data.rs"),("label storage","src/data.rs"),("tag identifiers","src/data.rs")],["sval::Index","sval::Label","sval::Tag"])
p("C11","Adapters hand on every call and every error unchanged",
  "Streaming through a reference, a box, a dynamic object or the adapter for short-lived values gives the wrapped stream exactly the calls, arguments and lifetimes that were made, and gives the caller exactly the wrapped stream's result. Values behind a reference, a box or a dynamic object stream and convert exactly as the value itself does.",
  ["inputs","programs","fault_sequences"],"every method of the two interfaces with every argument, for every wrapped stream or value, and every point of failure",
  "Each adapter repeats some fifty forwarding methods; the tests call few of them, and a method left out silently degrades rather than fails.",
  ["src/stream.rs","src/value.rs","dynamic/src/stream.rs","dynamic/src/value.rs"],[("forwarding implementations","src/stream.rs"),("dynamic dispatch","dynamic/src/stream.rs")],["sval::Stream for &mut S","sval_dynamic::Stream"])
p("C12","Built-in types stream exactly their content with accurate hints",
  "Every supported standard type streams well-formed events that carry exactly its content: each element once, in order, with correct sizes, indexes and labels. Every size hint given equals the number of elements or bytes that follow.",
  ["inputs"],"every value of every supported standard type, any length",
  "Tests stream a few small values per type, while the loops and sixteen tuple sizes are written by macros.",
  ["src/data/seq.rs","src/data/map.rs","src/data/text.rs","src/data/binary.rs","src/data/option.rs","src/data/number.rs","src/data.rs"],[("value implementations of standard types","src/data/seq.rs")],["sval::Value"])
p("C13","Streaming by reference equals streaming the value",
  "For every type that can be streamed through a shorter-lived reference, streaming by reference produces exactly the events that streaming the value itself produces, and borrows data for as long as the referenced data allows.",
  ["inputs","programs"],"every value of every type with a by-reference implementation",
  "Tests cover a few types and one value each.",
  ["ref/src/lib.rs","ref/src/seq.rs"],[("by-reference implementations","ref/src/lib.rs")],["sval_ref::ValueRef"])
p("C14","Flattening puts every child value on the parent once, under its right key",
  "Flattening a map, sequence, record or tuple onto a parent of any of these kinds puts each of the child's values on the parent exactly once and in order, under the key, label or index the documentation gives for that pair of kinds; indexes continue across siblings. Nested containers inside those values arrive intact, scalars flattened directly are ignored, and any failure of the parent stream or of the child is reported.",
  ["inputs","programs","fault_sequences"],"every value of the data model flattened onto every kind of parent, with any number of siblings around it and every point of failure",
  "Tests flatten a few fixed values; depth tracking and index allocation only go wrong for particular nestings, tags and orders.",
  ["flatten/src/flattener.rs","flatten/src/index.rs","flatten/src/label.rs","flatten/src/map.rs","flatten/src/record.rs","flatten/src/record_tuple.rs","flatten/src/seq.rs","flatten/src/tuple.rs"],[("depth tracking flattener","flatten/src/flattener.rs"),("index allocation","flatten/src/index.rs"),("label buffering","flatten/src/label.rs")],["sval_flatten::flatten_to_map","sval_flatten::flatten_to_record"])
p("C15","Formatted text mirrors the value in Debug style",
  "Formatting a value writes its one-line, Debug-like text: every scalar, text (escaped character by character like char::escape_debug), label, element and nesting appears exactly once, in order, delimited and separated, whatever the nesting and however text is split. A custom token writer receives the same text as tokens, each with its kind. Values adapted from Debug or Display stream the text they print. A failing writer or value never gives a complete-looking result.",
  ["inputs","fault_sequences"],"every value of the data model, any nesting and fragmentation, and every failure point of the writer or the value",
  "Tests format a few derived values; separators, nesting and escapes depend on arbitrary values and text.",
  ["fmt/src/writer.rs","fmt/src/token_write.rs","fmt/src/to_fmt.rs","fmt/src/to_write.rs","fmt/src/to_value.rs"],[("formatter","fmt/src/writer.rs"),("token writer","fmt/src/token_write.rs"),("values from Debug and Display","fmt/src/to_value.rs")],["sval_fmt::ToFmt","sval_fmt::stream_to_token_write","sval_fmt::stream_debug"])
p("C16","Serde values stream as the same value",
  "Streaming a value that implements serde's Serialize gives the events of the same value in this data model: same kind, content, order, names, variant indexes and sizes, for every method of a serde serializer. An error of the serde value or of the stream stops streaming and is reported.",
  ["inputs","programs","fault_sequences"],"every value of serde's data model, at any nesting, and every point of failure",
  "Tests convert one value per kind; nesting, variant indexes and failures are not sampled.",
  ["serde/src/to_value.rs"],[("serializer over streams","serde/src/to_value.rs")],["sval_serde::ToValue","sval_serde::stream"])
p("C17","Values serialize through serde as the same value or an error",
  "Serializing a value through serde makes the serializer calls for the same value: same kind, content, order, names, variant indexes and sizes; a serde value streamed here and serialized back is unchanged. A value that serde cannot express, a failing value or a failing serializer gives an error, never a panic or a different value.",
  ["inputs","programs","fault_sequences"],"every value of the data model, at any nesting and fragmentation, and every point of failure",
  "Tests convert one value per kind; the flat stream is turned into recursive calls by a state machine that depends on nesting.",
  ["serde/src/to_serialize.rs","nested/src/lib.rs","nested/src/flat.rs","nested/src/flat_enum.rs"],[("serde calls from recursive streams","serde/src/to_serialize.rs"),("flat to recursive streams","nested/src/flat.rs")],["sval_serde::ToSerialize","sval_serde::serialize"])
p("C18","Recursive streams see the same value",
  "A recursive stream gets, through its nested calls, the same value that was streamed flat: every element, key, field and variant once, in order, with its tags, labels, indexes and sizes; text and binary arrive whole, and a stream that leaves scalars to the defaults sees the same scalar. What cannot be expressed is an error, and a failing value or stream makes the whole fail; nothing panics.",
  ["inputs","programs","fault_sequences"],"every value of the data model, at any nesting and fragmentation, and every point of failure",
  "Tests stream a few derived values; which part is buffered and when it is released depends on nesting and history.",
  ["nested/src/lib.rs","nested/src/flat.rs","nested/src/flat_enum.rs"],[("flat to recursive streams","nested/src/flat.rs"),("nested enums","nested/src/flat_enum.rs")],["sval_nested::stream","sval_nested::Stream"])
p("C19","Derived values stream their type's documented shape",
  "A type that derives Value streams every field that is not skipped exactly once and in order, in the shape its kind and attributes document: record tuples, records, tuples, sequences, tagged values, tags and enums, with the declared or default tags, labels and indexes, the exact field count, and flattened fields merged in place. A stream error is reported at once.",
  ["programs","inputs","fault_sequences"],"every derivable type with every combination of attributes, and every content",
  "Tests derive some types and look at one value each; the macro writes new code for every type.",
  ["derive_macros/src/derive.rs","derive_macros/src/derive/derive_enum.rs","derive_macros/src/derive/derive_struct.rs","derive_macros/src/stream/stream_record_tuple.rs","derive_macros/src/index.rs","derive_macros/src/label.rs"],[("code generation for fields","derive_macros/src/stream/stream_record_tuple.rs"),("index allocation","derive_macros/src/index.rs")],["sval_derive::Value"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write('\n'.join(json.dumps(x) for x in P)+'\n')
