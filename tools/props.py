#!/usr/bin/env python3
# writes properties.jsonl
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
F="filtering/"
p("P01","A bit-pattern filter accepts exactly the tag IDs its pattern describes",
 "A filter made from a pattern over 0, 1 and the wildcard x at a bit offset accepts a tag ID exactly when every non-wildcard bit of the pattern equals the ID's bit at that position and the ID is long enough to hold the bytes the pattern lies in. The per-byte view of the filter (which bytes it covers, their filter and mask values, whether it constrains anything at all) describes the same pattern.",
 ["inputs"],"every pattern of any length over {0,1,x}, every bit offset, every tag ID of any length including empty and too short ones",
 "The tests sample a dozen pattern/offset/ID triples, nearly all byte aligned; they cannot cover all alignments, lengths and wildcard placements, and none has an ID shorter than the filter.",
 [F+"filter_object.go"],[("pattern to filter/mask bytes",F+"filter_object.go NewFilter, makeFilter"),("byte-wise comparison",F+"filter_object.go (*FilterObject).Match")],["return value of Match, GetByteAt, HasByteAt, IsTransparent"])
p("P02","Searching never crashes, whatever bytes a tag carries",
 "For every engine holding any set of subscriptions and for every tag ID and PC bits, including empty, short and malformed ones, a search returns (matches or an error) and never panics or runs forever.",
 ["inputs","configurations"],"every subscription set an engine can hold, every byte string as ID, every PC value",
 "Tests search only with well-formed 96-bit tags that the subscriptions were generated for; a reader delivers whatever the air interface returns.",
 [F+"patricia_trie.go",F+"splay_tree.go",F+"list.go",F+"legacy_engine.go",F+"filter_object.go","tdt/core.go"],[("bounds of byte comparison",F+"filter_object.go Match"),("next-bit lookup",F+"engine.go getNextBit"),("recursive search",F+"patricia_trie.go search, splay_tree.go splaySearch"),("translation","tdt/core.go Translate")],["Search of each engine"])
p("P03","The list engine reports exactly the matching subscriptions",
 "A search of the list engine returns the report URI of every subscription whose filter accepts the ID, once per subscription in list order, and nothing else; it returns an error and no URI when nothing matches.",
 ["inputs","configurations"],"every list of filters and every tag ID",
 "Tests use lists of a few disjoint filters; overlapping filters and arbitrary IDs are not covered.",
 [F+"list.go"],[("linear scan",F+"list.go (*List).Search"),("construction",F+"list.go NewList")],["Search result"])
p("P04","A Patricia-trie search returns exactly the subscriptions that prefix the ID",
 "For a trie that represents a set of bit-string subscriptions, a search with a tag ID returns the report URI of every subscribed bit string that is a prefix of the ID's bits, each once, and no other URI.",
 ["inputs","configurations"],"every well-formed trie of any depth and shape and every tag ID",
 "Tests compare a handful of tries with hand-written expectations; the shape space (branching, nesting, prefix chains) is unbounded.",
 [F+"patricia_trie.go",F+"engine.go"],[("descent by next bit",F+"patricia_trie.go (*PatriciaTrieNode).search"),("bit extraction",F+"engine.go getNextBit")],["Search result"],
 [("trie node","bit-string fragment, report URI, one and zero children",F+"patricia_trie.go PatriciaTrieNode")])
p("P05","Patricia-trie construction represents exactly the given subscriptions",
 "A trie built from any set of bit-string subscriptions maps every subscribed bit string to its report URI and every other bit string to nothing, and is well formed: every child continues its parent's bits and branches on its first bit.",
 ["inputs"],"every finite set of non-empty bit strings with report URIs, including sets with one element, with common prefixes and with elements that prefix one another",
 "Tests build two fixed tries; a lost or misplaced subscription shows only for particular combinations of prefixes.",
 [F+"patricia_trie.go",F+"engine.go"],[("recursive build",F+"patricia_trie.go build, NewPatriciaTrie"),("longest common prefix",F+"engine.go lcp")],["lookups in the built trie, Search results"])
p("P06","Adding to a Patricia trie adds that subscription and disturbs nothing else",
 "After a bit string is added with a report URI, the trie maps that string to that URI and every other string to what it mapped to before, and the trie stays well formed.",
 ["inputs","histories"],"every well-formed trie, every bit string (already present, extending, splitting or being a prefix of existing nodes), hence every sequence of additions",
 "Tests add a few strings to fixed tries and compare structures; splits at every position and additions of proper prefixes are not covered.",
 [F+"patricia_trie.go"],[("insertion",F+"patricia_trie.go (*PatriciaTrieNode).add")],["lookups and Search results after AddSubscription"])
p("P07","Deleting from a Patricia trie removes that subscription and nothing else",
 "After a bit string is deleted, the trie maps that string to nothing and every other string to what it mapped to before, and the trie stays well formed; deleting an absent string changes nothing.",
 ["inputs","histories"],"every well-formed trie and every bit string, hence every sequence of additions and deletions",
 "Tests delete a few strings from fixed tries; node merging after deletion has many shapes the tests do not reach.",
 [F+"patricia_trie.go"],[("deletion",F+"patricia_trie.go (*PatriciaTrieNode).delete")],["lookups and Search results after DeleteSubscription"])
p("P08","A splay-tree search is exact and splaying never changes what is represented",
 "A search of the splay tree returns the report URIs of exactly the subscribed bit strings that prefix the ID, each once; the rearrangement it performs keeps the set of subscriptions and the result of every later search unchanged.",
 ["inputs","histories"],"every well-formed splay tree, every tag ID, and every sequence of earlier searches",
 "Whether an answer is still right after a rearrangement depends on the whole history of searches; tests search fresh trees once or twice.",
 [F+"splay_tree.go"],[("search and move-to-root",F+"splay_tree.go (*SplayTreeNode).splaySearch")],["Search results over a sequence of searches"],
 [("splay node","fragment, report URI, subset chain and sibling chain",F+"splay_tree.go SplayTreeNode")])
p("P09","Splay-tree construction, additions and deletions track the subscription set",
 "A splay tree built from a set of bit-string subscriptions, and then changed by any additions and deletions, represents exactly the resulting subscription set: a lookup of any bit string yields its report URI if subscribed and nothing otherwise.",
 ["inputs","histories"],"every finite subscription set and every sequence of additions and deletions",
 "Tests check fixed trees; additions of strings that contain existing siblings and deletions that leave aggregation nodes are not covered.",
 [F+"splay_tree.go",F+"subscriptions.go"],[("insertion",F+"splay_tree.go add"),("deletion",F+"splay_tree.go delete"),("subset linking",F+"subscriptions.go linkSubset"),("construction",F+"splay_tree.go build")],["lookups and Search results"])
p("P10","Adding and deleting list subscriptions track the subscription list",
 "Adding a subscription to the list engine makes it present exactly once and keeps all others; deleting one removes one equal entry, keeps the order and the identity of all others, and deleting an absent one changes nothing.",
 ["inputs","histories"],"every list of subscriptions and every subscription added or deleted, hence every sequence",
 "Tests add and delete one or two entries; aliasing of the backing array and repeated entries need arbitrary histories.",
 [F+"list.go"],[("duplicate check",F+"list.go ListFilters.IndexOf"),("append and splice",F+"list.go AddSubscription, DeleteSubscription")],["list contents, Search results"])
p("P11","The text-based engine adds, deletes and searches its own subscription table",
 "Adding, then deleting, destinations in the legacy engine changes exactly the named entries of its own table: after adding, every named destination is present once under its filter; after deleting, none of the named ones is, and all others are untouched.",
 ["inputs","histories"],"every table and every set of (filter, destinations) added or deleted",
 "Tests delete a single destination from small tables; several deletions under one filter in a single call and sharing with the caller's slices are not covered.",
 [F+"legacy_engine.go"],[("table update",F+"legacy_engine.go AddSubscription, DeleteSubscription")],["Dump and Search after each call"])
p("P12","Every engine survives a save and restore unchanged",
 "Encoding an engine, or a subscription table, to bytes and decoding those bytes into a fresh value yields the same subscriptions and therefore the same search results; data of another engine type is refused with an error.",
 ["inputs","histories"],"every engine contents, every tree shape",
 "Tests round-trip one or two values per type; a lost child or a wrong loop count shows only for particular shapes and sizes.",
 [F+"patricia_trie.go",F+"splay_tree.go",F+"list.go",F+"legacy_engine.go",F+"subscriptions.go"],[("encoders",F+"*.go MarshalBinary"),("decoders",F+"*.go UnmarshalBinary")],["decoded value compared with the encoded one"])
p("P13","An encoded EPC tag translates back to the identity it was made from",
 "For every company prefix, reference and serial that fit a GIAI-96, GRAI-96, SGTIN-96 or SSCC-96 tag, the identity obtained by translating the encoded tag names exactly the encoded fields, with each field's digits in its fixed width.",
 ["inputs"],"every tag ID with a known 96-bit header, every partition 0-6 and every field value in range",
 "Tests translate fewer than a dozen tags; the layout of each partition and the zero padding must be right for all field values.",
 ["tdt/core.go","tdt/epc.go","scheme/epc.go"],[("bit field extraction","tdt/core.go buildEPC"),("partition tables","tdt/epc.go"),("zero padding","tdt/core.go buildEPC")],["Translate result"])
p("P14","Translation never crashes and never invents an identity",
 "Translating any PC bits and any tag ID returns either an identity or an error and never panics; an ID that is empty, too short, has an unknown header or carries an out-of-range partition or field value yields an error and no identity.",
 ["inputs"],"every PC value and every byte string",
 "Tests feed valid tags only.",
 ["tdt/core.go"],[("dispatch on header and AFI","tdt/core.go Translate"),("field decoding","tdt/core.go buildEPC, buildUII")],["Translate result"])
p("P15","Encoders lay out the standard's bit fields and refuse values that do not fit",
 "Each EPC encoder returns an ID of exactly 96 bits whose header, filter, partition and fields are the standard's binary encodings of its arguments, in order and in full width, or an error when an argument is malformed; the PC bits announce the ID's length.",
 ["inputs"],"every filter value, company prefix, reference and serial",
 "Tests encode a few values per scheme; field widths vary with the partition and leading zeros with the value.",
 ["scheme/epc.go","scheme/iso.go","scheme/generate.go"],[("field concatenation","scheme/epc.go Make*96"),("padding","scheme/epc.go")],["encoded bit string"])
p("P16","A pattern subscription matches exactly the tags that carry its fields",
 "The bit-string filter derived from a tag pattern is the encoding of the pattern's fields in their standard positions, so it is a prefix of the encoding of every tag with those fields; a pattern that names fewer fields yields a shorter prefix.",
 ["inputs"],"every pattern with any number of leading fields, every partition and every field value",
 "Tests derive filters for some twenty patterns, one value per scheme and field count.",
 ["tdt/epc.go","tdt/core.go","tdt/iso.go"],[("prefix filters","tdt/epc.go NewPrefixFilter*"),("dispatch","tdt/core.go MakePrefixFilterString")],["returned bit string"])
p("P17","A malformed pattern never turns into a catch-all subscription",
 "A pattern whose scheme is unknown or whose fields cannot be encoded yields an error, and a subscription set containing such patterns is preprocessed into exactly the valid ones, never into a filter that matches everything.",
 ["inputs"],"every pattern string, every mixture of valid and invalid patterns in a subscription set",
 "Tests contain no invalid pattern in a subscription set.",
 ["filtering/subscriptions.go","tdt/core.go"],[("preprocessing","filtering/subscriptions.go ToByteSubscriptions"),("error reporting","tdt/core.go MakePrefixFilterString")],["keys of the preprocessed set"])
p("P18","Six-bit text coding and container check digits follow the ISO standards",
 "Decoding a byte string as six-bit characters yields the standard character of every complete group of six bits, in order, leaving out padding groups (100000), and the check digit computed for a container number is the standard's weighted sum modulo 11 modulo 10 for every owner code, category and serial.",
 ["inputs"],"every byte string; every owner code, category identifier and six-digit serial",
 "Tests decode a few strings and check two container numbers.",
 ["tdt/core.go","tdt/iso.go","scheme/iso.go"],[("six-bit decoding","tdt/core.go parse6BitEncodedByteSliceToString"),("check digit","tdt/iso.go, scheme/iso.go")],["decoded string, check digit"])
p("P19","Common prefixes and next bits are computed exactly",
 "The common prefix of a collection of strings is a prefix of every one of them and no longer string is; the bit looked up at an offset is the ID's bit there, end-of-ID exactly at the end, and an error beyond.",
 ["inputs"],"every list of strings, every ID and offset",
 "Tests check three lists and a few offsets.",
 ["filtering/engine.go"],[("prefix of lexicographic extremes","filtering/engine.go lcp"),("shift and test","filtering/engine.go getNextBit")],["return values"])
p("P20","Combining filters into a composition loses no match",
 "For filters that share at least one byte, the composite filter accepts every ID that one of the combined filters accepts, and an ID accepted by the composite and by a filter's remaining child filter is accepted by that filter, and conversely.",
 ["inputs"],"every non-empty collection of filters with a common byte range, every tag ID",
 "Tests compose three fixed filters and compare the resulting strings.",
 ["filtering/composition.go"],[("common bits","filtering/composition.go NewComposition"),("child filters","filtering/composition.go NewComposition, processWildcard")],["composite and child filters applied to IDs"])
p("P21","Copies and listings of subscriptions are complete and independent",
 "The key listing of a subscription table contains every key exactly once in ascending order, and a cloned table equals the original and shares no storage with it.",
 ["inputs","histories"],"every subscription table",
 "Tests list and clone tables of one or two entries and never modify the copy.",
 ["filtering/subscriptions.go"],[("listing","filtering/subscriptions.go Keys"),("copy","filtering/subscriptions.go Clone")],["Keys and Clone results"])
p("P22","Concurrent engine construction and search deliver every result to its caller",
 "While engines are rebuilt in the background and searches run concurrently, every search is answered by an engine that represents the subscriptions in force, no request is lost, and no data race occurs.",
 ["schedules","histories"],"every interleaving of management messages, engine generations and searches",
 "The tests start no concurrent searches.",
 ["filtering/engine_factory.go","filtering/engine_generator.go"],[("management channel","filtering/engine_factory.go"),("generator goroutine","filtering/engine_generator.go")],["search replies under concurrency"])
p("P23","The reader front end processes every tag report exactly once",
 "Every complete reader message received on the connection is decoded and its tags are searched exactly once, independent of how the stream is split into packets, and a truncated or malformed message does not stop the service.",
 ["schedules","fault_sequences"],"every segmentation of the byte stream and every malformed message",
 "There are no tests of the network loop.",
 ["cmd/gosstrak-fc/main.go"],[("connection loop","cmd/gosstrak-fc/main.go")],["events handed to the engine"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
