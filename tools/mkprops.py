#!/usr/bin/env python3
# Writes properties.jsonl (run by hand after editing; not part of any check).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs)))
p("C01","DNS bootstrap picks the longest matching label suffix",
 "For every DNS registry document and every domain query, a lookup returns the URLs of the registry entry that is the longest whole-label suffix of the query (the empty entry, the root, matching last), and returns no URLs exactly when no entry is such a suffix. The query is compared lower-cased with one trailing dot removed; the answer reports that normalised query and the matching entry. A lookup never fails and never changes the registry.",
 ["inputs"],"all registry documents x all query strings (any length, any number of labels, empty labels, mixed case)",
 "tests sample a handful of names against one fixture; the claim ranges over all names, all entry sets and an unbounded label loop",
 ["bootstrap/dns_registry.go"],[("suffix-stripping loop","bootstrap/dns_registry.go:Lookup"),("constructor shares the parsed entry map","bootstrap/dns_registry.go:NewDNSRegistry")],["bootstrap.NewDNSRegistry + Lookup"])
p("C02","IP bootstrap picks the most specific network covering the query",
 "For every IPv4/IPv6 registry document and every address or CIDR query of that family, a lookup returns the entry with the longest prefix among the entries whose network contains the whole query network, together with that entry's URLs, and no entry and no URLs exactly when none contains it. A query of the other family or one that is not an address/CIDR is an error (IPv4-mapped IPv6 spellings aside). Entries of the other family or that do not parse are ignored.",
 ["inputs"],"all registry documents x all query strings x both families",
 "tests sample fixed prefixes; the claim quantifies over all prefix sets (nesting, adjacency, /0) and all addresses, and over map iteration orders",
 ["bootstrap/net_registry.go"],[("per-prefix-length buckets, sorted, binary searched","bootstrap/net_registry.go:NewNetRegistry,Lookup")],["bootstrap.NewNetRegistry + Lookup"])
p("C03","AS number bootstrap returns the range containing the number",
 "For every AS-number registry document whose ranges do not overlap and every AS number query (decimal, optionally prefixed AS in any case), a lookup returns the range containing the number, inclusive at both ends, with that range's URLs, and no entry and no URLs when no range contains it. A query that is not a 32-bit AS number is an error. Range bounds may be given in either order, and entries that are not AS numbers or ranges are ignored.",
 ["inputs"],"all registry documents with disjoint ranges x all query strings",
 "tests sample a few numbers; boundaries of every range and every sort/search outcome are an unbounded space",
 ["bootstrap/asn_registry.go"],[("sorted ranges + binary search on the upper bound","bootstrap/asn_registry.go:NewASNRegistry,Lookup"),("range parsing","bootstrap/asn_registry.go:parseASNRange,parseASN")],["bootstrap.NewASNRegistry + Lookup"])
p("C04","Entity bootstrap uses the tag after the last hyphen",
 "For every object-tag registry document and every entity handle, a lookup returns the URLs of the entry equal to the text after the handle's last hyphen. It returns no entry and no URLs when the handle has no hyphen, ends in a hyphen, or its tag is not registered. The answer echoes the handle unchanged and the lookup never fails.",
 ["inputs"],"all registry documents x all handles",
 "tests sample a few handles; handles with several hyphens, empty tags and arbitrary bytes are unbounded",
 ["bootstrap/service_provider_registry.go"],[("last-hyphen split and exact map lookup","bootstrap/service_provider_registry.go:Lookup")],["bootstrap.NewServiceProviderRegistry + Lookup"])
p("C05","Registry documents parse completely, or are rejected",
 "For every registry document that is accepted, each service of two (or three) arrays contributes, for every entry named in its first (second) array, exactly the parseable URLs of its last array in their original order, later services overriding earlier ones; services with no parseable URL contribute nothing. Any service with another number of arrays, and any document that is not JSON of the registry shape, is rejected with an error and no result. Description, publication, version and the original bytes are preserved.",
 ["inputs"],"all byte strings offered as registry documents",
 "tests parse four good files and a few bad ones; the claim covers every nesting of services, entries and unparseable URLs",
 ["bootstrap/file.go"],[("service loop building the entry map","bootstrap/file.go:NewFile")],["bootstrap.NewFile"])
p("C06","A failed registry refresh changes nothing",
 "When downloading a bootstrap registry fails in any way (transport error, non-200 status, truncated body, unparseable document, or a cache write error), an error is returned and the registry held in memory is exactly the one held before; unless the failure is the cache write itself, the cache is not written at all. When it succeeds, the cache holds exactly the downloaded bytes and the registry is the one parsed from them. Other registries are never affected.",
 ["fault_sequences","histories"],"every fault at every step of a download, from every prior state of registry and cache",
 "tests only exercise a fully successful download against a fixture; no fault is injected at any of the steps",
 ["bootstrap/client.go"],[("download, parse, save, then publish, in that order","bootstrap/client.go:DownloadWithContext,download,reloadFromCache")],["bootstrap.Client.Download/DownloadWithContext and the registry accessors"])
p("C07","Registry downloads happen only when needed; accessors stay offline",
 "A bootstrap lookup downloads the registry exactly when it still holds none in memory after picking up a usable cached copy, the cached copy has expired, or a newer cached copy cannot be loaded; otherwise no network request is made, and a failed download is returned as an error. A newer copy in the cache is loaded before answering. Reading a registry through its accessor never makes a network request, and keeps the current registry when a newer cached copy is unusable.",
 ["histories","fault_sequences"],"every sequence of lookups, accessor calls, downloads and cache states (absent, good, should-reload, expired), with every load/parse/download outcome",
 "tests run one lookup on a fresh client; the decision table over cache states, in-memory states and failures is never enumerated",
 ["bootstrap/client.go"],[("cache-state switch and forced download","bootstrap/client.go:Lookup,freshenFromCache,reloadFromCache")],["bootstrap.Client.Lookup, ASN, DNS, IPv4, IPv6, ServiceProvider"])
p("C08","Disk cache state reflects the file and what was last read",
 "For every sequence of saves, loads and outside changes to the cached files, the disk cache reports a file as absent when it cannot be examined, expired when its modification time is not within the timeout, good when it is unexpired and no newer than the copy last saved or loaded through this cache, and should-reload otherwise. Loading returns the file's bytes even when expired and errors when it is missing; saving writes exactly the given bytes under the cache directory. A change made while a load is in progress is still reported as should-reload afterwards.",
 ["histories","fault_sequences","schedules"],"all histories of save/load/state on any file names, interleaved with external modifications and I/O failures",
 "tests drive one two-client scenario with a sleep; interleavings inside load, failed saves/loads and timeouts at the boundary are not reached",
 ["bootstrap/cache/disk_cache.go"],[("modification time recorded before the read","bootstrap/cache/disk_cache.go:Load"),("state comparison","bootstrap/cache/disk_cache.go:State"),("record after write","bootstrap/cache/disk_cache.go:Save")],["cache.DiskCache Save/Load/State"])
p("C09","Memory cache returns what was saved, isolated from callers",
 "For every history of saves on a memory cache, loading a file returns exactly the bytes of the last save under that name and errors if there was none. Changing a byte slice after passing it to save, or one returned by load, never changes what later loads return. A file is absent until saved, then good until the timeout has elapsed since its last save, then expired.",
 ["histories"],"all histories of save/load/state over all names and contents, with callers mutating their buffers at any time",
 "tests mutate one buffer once; aliasing must be excluded for every history",
 ["bootstrap/cache/memory_cache.go"],[("copy on save and on load","bootstrap/cache/memory_cache.go:Save,Load")],["cache.MemoryCache Save/Load/State"])
p("C10","Cache files and download URLs depend only on the configured base URL",
 "With the default bootstrap URL each registry is cached under its plain file name; with any other base URL the cache name is the plain name prefixed by the first six hex digits of the SHA-256 of that base URL and an underscore, so registries of different services and types never share a file (hash collisions aside). The document is fetched from the base URL with its path treated as a directory, i.e. the base path, a slash if missing, and the plain file name. The configured base URL is never modified.",
 ["configurations"],"all base URLs (with or without path, trailing slash, query) x all registry types",
 "tests use one custom URL; the naming scheme must separate all URLs and types",
 ["bootstrap/client.go"],[("file name derivation","bootstrap/client.go:filenameFor,Filename"),("base path slash normalisation and resolution","bootstrap/client.go:download")],["names passed to the cache and URLs requested by bootstrap.Client"])
p("C11","Request URLs carry the query intact, at the right path",
 "For every request with a server URL, the request URL is the server's URL with, after exactly one slash, the path of the request type and the query percent-encoded as a single path segment (or, for IP queries, address and optional prefix length as segments; for searches, the query as the type's one query parameter), so that decoding it gives the query back unchanged. Query parameters of the server URL and of the request are kept unless overridden by the search parameter, and so is the server's fragment. A raw request's URL is its server URL unchanged, and without a server there is no URL.",
 ["inputs"],"all request types x all query strings (any bytes) x all server URLs and parameters",
 "tests cover about fifteen literal queries; injection by arbitrary bytes (slash, question mark, hash, percent, non-ASCII) is an all-inputs claim",
 ["request.go"],[("path and parameter selection","request.go:pathAndValues"),("byte-wise escaping","request.go:escapePath,shouldPathEscape"),("URL assembly","request.go:URL")],["Request.URL"])
p("C12","Query auto-detection follows the documented precedence",
 "For every query text: an http or https URL becomes a raw request for exactly that URL, except that one with an empty or root path becomes a domain request for its host name; otherwise a text that parses as an IP address or CIDR becomes an IP request; otherwise an AS number (optional AS prefix, any case, 32-bit) becomes an autnum request for that number; otherwise a text containing a dot becomes a domain request; anything else becomes an entity request, the last two with the text unchanged. Exactly one type is always chosen and detection never fails.",
 ["inputs"],"all query strings",
 "tests sample a dozen strings; precedence between overlapping syntaxes needs all strings",
 ["request.go"],[("ordered classification","request.go:NewAutoRequest,parseAutnum")],["NewAutoRequest"])
p("C13","Building and running requests never alters caller data",
 "Computing a request's URL, deriving a request with a server or context, and running a request through the client leave the caller's request, its parameters, its server URL and the URLs handed out by the bootstrap registries exactly as they were, so that repeating the call gives the same result. A derived request differs from the original only in the server or context given. Only the client's own unset fields may be filled in with defaults.",
 ["histories","inputs"],"all requests (all fields), all call sequences",
 "tests never compare inputs before and after; a frame condition over all fields is not observable from results of single calls",
 ["request.go","client.go"],[("copy before change","request.go:URL,WithServer,WithContext")],["Request.URL, WithServer, WithContext, Client.Do"])
p("C14","Servers are tried in order until the first decisive answer",
 "When a request is run, its servers are tried strictly in order, one HTTP request each, and trying stops at the first 2xx response with a body that decodes, whose object is returned without error; a 404 stops with an object-does-not-exist error, and an expired deadline stops with the error. Any other failure, including a server from which no URL can be made, moves on to the next server, and when all are exhausted the error says no server worked. The response records exactly one entry per attempted server, in order, with its URL, body and error.",
 ["fault_sequences","configurations"],"every number of servers and every sequence of per-server outcomes (transport error, body read error, any status, empty or undecodable body, deadline)",
 "tests script a few single-server outcomes; the claim ranges over all sequences of outcomes of any length",
 ["client.go"],[("server loop","client.go:Do"),("single attempt","client.go:get")],["Client.Do"])
p("C15","Bootstrapping is used exactly when no server is given",
 "A request with a server is sent to that server alone without consulting bootstrap; a request without one is bootstrapped with the registry for its type (domain, autnum, entity; IP addresses to IPv4 or IPv6 by presence of a colon) and its query text unchanged, and the servers tried are exactly the answer's URLs in order. Other types without a server, and a missing request, fail with a specific error and no network use; no matching server gives a no-match error. Typed query helpers return the object only if it has the asked type, otherwise an error: the server's own error code, title and description, or a wrong-type error.",
 ["inputs","configurations"],"all request types, queries, bootstrap outcomes and response object types",
 "tests exercise a few types with fixtures; the full type table, error paths and helper results are not enumerated",
 ["client.go","client_error.go"],[("bootstrap decision and type mapping","client.go:Do,bootstrapTypeFor"),("typed helpers","client.go:QueryDomain,QueryAutnum,QueryIP")],["Client.Do, QueryDomain, QueryAutnum, QueryIP"])
p("C16","Each RDAP query is one GET with the right headers and deadline",
 "Each attempt sends exactly one GET to the request's URL with no body, an Accept header listing application/rdap+json and application/json, the configured User-Agent when one is set (and no override otherwise), and under the request's context; a positive request timeout bounds the whole run, and the typed query helpers bound theirs by 30 seconds. Response bodies are read fully and always closed, and a read failure is recorded as that attempt's error.",
 ["inputs","fault_sequences"],"all requests, client configurations and response outcomes",
 "tests intercept only URLs; headers, contexts, timeouts and body handling under failures are never asserted",
 ["client.go"],[("single attempt","client.go:get"),("timeout","client.go:Do,doQuickRequest")],["HTTP transport seen by Client.Do"])
p("C17","Decoded type follows the response's own markers",
 "For every JSON object, the decoded result is an error object if it has an error code; otherwise the object named by its object class (autnum, domain, entity, ip network, nameserver), an unrecognised or non-string class being an error; otherwise the search result type whose results array is present (domain, entity, nameserver in that order); otherwise a help response. Input that is not a JSON object (or null) is an error with no result.",
 ["inputs"],"all byte strings and all JSON objects, including several markers at once",
 "tests sample one document per type; marker combinations and non-string classes are unbounded",
 ["decoder.go"],[("top-level dispatch","decoder.go:Decode,decodeTopLevel")],["Decoder.Decode"])
p("C18","Scalar fields hold the JSON value or its exact conversion",
 "For every field and every JSON value: a string, number or boolean of the field's own kind is stored unchanged; a value of another scalar kind is converted (number text to number, number or boolean to text, null to zero or empty) with a note recorded, a fractional number in an integer field is truncated towards zero with a note, and a value that cannot be represented in the field (wrong kind, unparseable text, out of the field's numeric range, negative for unsigned) leaves the field at its zero value (an optional field may then point to a zero value) with a note. No JSON value makes decoding of a field panic or store a wrapped number.",
 ["inputs"],"all scalar destination kinds and widths x all JSON values (incl. huge, negative and fractional numbers)",
 "tests sample a few numbers per width; range and conversion behaviour is an all-values claim",
 ["decoder.go"],[("per-kind conversion and range checks","decoder.go:decodeUint,decodeInt,decodeFloat64,decodeString,decodeBool,decode")],["Decoder.Decode field values and DecodeData.Notes"])
p("C19","Nested decoding is best-effort and keeps every field",
 "Decoding any JSON object into an RDAP type never fails or panics because of field contents: arrays keep exactly the decodable elements in order, maps keep exactly the decodable members, nested objects are decoded recursively, and a wrong-typed member is skipped with a note on the enclosing object without affecting any other field. Every object keeps the raw value of each of its members, known or not, retrievable by name, and lists as unknown exactly the members that no field of its type accepts. A member is stored in the field of that RDAP name, including fields of embedded structures.",
 ["inputs"],"all JSON documents, arbitrarily nested, with arbitrary member names and types",
 "tests decode fixed documents; all nestings and all wrong-typed placements are unbounded",
 ["decoder.go","decode_data.go"],[("recursive decode","decoder.go:decode,decodeSlice,decodeMap,decodeStruct,decodePtr"),("field plan","decoder.go:structPlanFor"),("raw values","decode_data.go")],["Decoder.Decode, DecodeData.Value/Fields/UnknownFields/Notes"])
p("C20","jCards are accepted exactly when well formed and kept verbatim",
 "A JSON array is accepted as a jCard exactly when it is the two-element array of the text vcard and an array of properties, each property having at least a text name, an object of parameters, a text type and a value of text, number, boolean, null or arrays of these nested at most three deep. Each accepted property keeps its name, type, string-valued parameters (a single text as a one-element list, non-strings dropped) and value, several values becoming an array, all in the original order. With the ignore option, exactly the invalid properties are dropped; otherwise one invalid property rejects the card.",
 ["inputs"],"all JSON values offered as jCards, with both option settings",
 "tests hold a dozen sample cards; the acceptance set is over all JSON values, with recursion",
 ["vcard.go"],[("structure checks","vcard.go:newVCardImpl,decodeVCardProperty,readParameters"),("bounded-depth value copy","vcard.go:readValue")],["NewVCard, NewVCardWithOptions"])
p("C21","vCard accessors return the documented component",
 "For every vCard: name, e-mail and organisation are the space-joined flattened text of the first property of that kind; each address accessor returns the corresponding one of the seven components of the first address, a multi-part component being space-joined, without one component shifting another; the telephone is the first value of the first property that is voice or has no type and has a value, and the fax the first of type fax. A missing property, component or value gives the empty string, and no vCard value makes an accessor panic. Looking up by name returns exactly the properties of that name in order.",
 ["inputs"],"all decoded vCards (any properties, nested and mixed values)",
 "tests check one fixture; component shifting and mixed values need all cards",
 ["vcard.go"],[("flattening","vcard.go:Values,appendValueStrings"),("selection","vcard.go:Get,GetFirst,getFirstPropertySingleString,getFirstAddressField,Tel,Fax")],["VCard accessors"])
p("C22","Text output cannot be forged by server data",
 "In the text output every line is an indentation, a label, a colon and optionally a value, and no name or value coming from a server can start a new line: newlines, carriage returns and NUL bytes in them are removed and everything else (of valid UTF-8 text) is printed unchanged. The same holds for the lines of WHOIS-style output, where a newline becomes a space. Indentation of a line is the configured character times the configured size times the nesting depth.",
 ["inputs"],"all response objects with arbitrary strings (names of unknown fields included) and all printer settings",
 "tests compare one golden output; injection needs arbitrary strings in every printed position",
 ["print.go","cli.go"],[("cleaning before every write","print.go:printValue,printHeading,cleanString,removeBadRunes"),("WHOIS cleaning","cli.go:safePrint")],["Printer.Print, RunCLI --whois output"])
p("C23","Text output is complete, ordered and honours the omit options",
 "For every response object the text output shows each non-empty known field (other than language and object class name) once under its label in a fixed order, list elements in their order and nested objects one level deeper, and then every unknown member in name order. Notices (remarks) are printed exactly when neither brief output nor the option to omit notices (remarks) is set; brief output also omits conformance, events, port43, variants, DNSSEC and an entity's nested networks, autnums and entities; brief links print a link as one line. Printing never panics, never changes the object, and is the same on every run.",
 ["inputs","configurations"],"all response objects of all ten types x all printer option combinations",
 "tests compare two golden outputs with default options; omit and brief options have no test at all",
 ["print.go"],[("per-type print routines","print.go:printObject and print*"),("unknown fields","print.go:printUnknowns,printUnknown")],["Printer.Print"])
p("C24","WHOIS-style conversion is faithful and well formed",
 "For every domain response the WHOIS-style result lists each key once, in order of first use, with a non-empty list of non-empty values in source order; dates come from the last-changed, registration and expiration events, contact fields from the first entity holding the role, registrar identity from the first registrar's card and IANA id, and statuses and name servers are all listed. Responses of other types give an empty result. Conversion never panics and never changes the response.",
 ["inputs"],"all domain objects (any events, entities, roles, cards)",
 "tests convert one fixture; multiple roles, repeated events and missing cards are not covered",
 ["response.go"],[("field mapping","response.go:ToWhoisStyleResponse,addEntityFields,findFirstEntity"),("ordered multimap","response.go:add")],["Response.ToWhoisStyleResponse"])
p("C25","Sandbox mode confines file access",
 "In sandbox mode, however enabled, no command line makes the client read a file named by the caller other than the three bundled sample certificates, nor write outside the default cache directory: the cache directory option, certificate and key files are ignored, a client certificate archive is taken only from the bundled files, and arguments are never expanded from files. The bundled-file loader serves exactly those three names, whatever the spelling of the path.",
 ["inputs"],"all argument vectors in sandbox mode; all file names given to the loader",
 "tests never run the client in sandbox mode; containment is a claim about every argument vector",
 ["cli.go","sandbox/file.go"],[("sandbox branches","cli.go:RunCLI"),("name allow-list","sandbox/file.go:IsFileInSandbox,LoadFile")],["RunCLI, sandbox.LoadFile"])
p("C26","The command exits 0 exactly on success and prints that response",
 "The command exits 0 exactly when it printed its version or when the request succeeded and its output could be formatted; every usage error, bad argument, unusable option combination and failed request exits 1 with a message on standard error and nothing on standard output, and printing the help text exits 1. The query type option selects exactly the documented request type for the first argument, with AS numbers and addresses validated. Raw and JSON output show the body of the response that was accepted, byte for byte or re-indented, and text or WHOIS output its decoded object; text is the default.",
 ["inputs","fault_sequences"],"all argument vectors x all server outcome sequences",
 "tests run a handful of command lines against one server; with several servers the printed body is never checked",
 ["cli.go"],[("argument handling and type switch","cli.go:RunCLI"),("output selection","cli.go:RunCLI")],["RunCLI exit code, stdout, stderr"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
