#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P=[]
PK="radius/src/core/packet.rs"; AT="radius/src/core/attributes.rs"; AV="radius/src/core/avp.rs"
SV="radius/src/server.rs"; CL="radius/src/client.rs"; TG="radius/src/core/tag.rs"; VS="radius/src/core/vsa.rs"
CO="radius/src/core/code.rs"; GE="code-generator/src/main.rs"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Only well-formed datagrams decode; decoding never panics or hangs",
 "Decoding any byte string with any secret terminates without a panic, and it succeeds exactly when the string has at least 20 octets, its length field lies between 20 and 4096 and does not exceed the string, and the octets from 20 up to that length are tiled exactly by attributes whose own length octet is at least 2. In every other case an error is returned.",
 ["inputs"],"every byte string a peer can send as a datagram",
 "The unit tests decode two RFC packets and five malformed strings; the property is about every combination of datagram size, length field and attribute lengths.",
 [PK,AT],[("header and length checks",PK+" Packet::decode"),("attribute walk",AT+" Attributes::decode")],observe=["Packet::decode"])

p("C02","Decoding and encoding preserve every field of a packet",
 "A decoded packet carries exactly the type, identifier, authenticator and ordered attribute list held by the datagram (octets beyond the length field are ignored) together with the given secret, and encoding it again yields the same octets, apart from the authenticator where the packet type has a computed one. Likewise, decoding an encoded packet gives back an equal packet, again apart from a computed authenticator.",
 ["inputs"],"every decodable datagram and every packet that can be built and encoded",
 "The tests re-encode one decoded packet; attribute order, empty values, repeated types, maximum lengths, every identifier and every code are not reached.",
 [PK,AT],[("decode",PK+" Packet::decode"),("encode",PK+" Packet::encode / marshal_binary"),("attribute list codec",AT)],observe=["Packet::decode","Packet::encode","Packet::lookup_all"])

p("C03","Encoding emits only complete packets within the protocol limits",
 "Encoding a packet succeeds exactly when its type is one that may be sent (all but Status-Client, Reserved and Invalid), every attribute value has at most 253 octets and the whole packet at most 4096 octets; the result then has exactly the size its length field announces and holds all attributes verbatim in order. Otherwise an error is returned, whatever the number and size of the attributes: never a panic and never an oversized, truncated or mislabelled datagram.",
 ["inputs"],"every packet type and every list of attributes, including totals far beyond 64 KiB",
 "One test checks an attribute of 253 and of 254 octets; no test goes near the 4096-octet limit or a total that overflows 16 bits.",
 [PK,AT],[("size computation and limit",PK+" marshal_binary"),("attribute limit",AT+" Attributes::encode"),("unsendable codes",PK+" encode")],observe=["Packet::encode"])

p("C04","Authenticators on the wire are the ones the RFCs define",
 "An encoded Access-Request or Status-Server carries the packet's own authenticator; an Accounting-, Disconnect- or CoA-Request carries MD5(code, identifier, length, sixteen zero octets, attributes, secret); every response type carries MD5(code, identifier, length, request authenticator, attributes, secret). A response made from a request keeps that request's identifier, authenticator and secret and starts without attributes.",
 ["inputs","configurations"],"every packet type, identifier, secret, request authenticator and attribute list, with both crypto back ends",
 "The tests compare one Access-Accept with the RFC example; ten other computed types, other secrets and the openssl code for them are not compared with anything.",
 [PK],[("authenticator computation (md5 and openssl)",PK+" Packet::encode"),("response construction",PK+" make_response_packet")],observe=["Packet::encode","Packet::make_response_packet"])

p("C05","Authenticity checks accept exactly the genuine packets",
 "For a non-empty secret and a well-formed packet (at least 20 octets, length field between 20 and its size), a request is reported authentic exactly if it is an Access-Request or Status-Server, or an Accounting-, Disconnect- or CoA-Request whose authenticator is the RFC digest under that secret; a response is reported authentic exactly if its authenticator is the RFC digest over itself, the request's authenticator and the secret. Octets after the declared length do not matter; inputs shorter than 20 octets, an empty secret and every other request type are never authentic, and no input makes the checks panic.",
 ["inputs","configurations"],"every request, response and secret, including every single-octet tampering, with both crypto back ends",
 "The tests call each check once on a genuine packet and never on a forged, tampered, padded or truncated one.",
 [PK],[("is_authentic_request / is_authentic_response (md5 and openssl)",PK)],observe=["Packet::is_authentic_request","Packet::is_authentic_response"])

p("C06","User-Password is hidden as RFC 2865 says and read back unchanged",
 "For every password of at most 128 octets, non-empty secret and 16-octet authenticator, the stored value is the password zero-padded to a positive multiple of 16 octets and hidden with the MD5 chain of RFC 2865 section 5.2, and reading it with the same secret and authenticator returns the password (up to trailing zero octets). Longer passwords, an empty secret, an authenticator of another length, and reading a stored value shorter than 16 or longer than 128 octets, are errors and never panic.",
 ["inputs","configurations"],"every password, secret, authenticator and stored value, with both crypto back ends",
 "The tests round-trip nine short ASCII passwords with one secret; block boundaries up to 128, binary content, wrong lengths and the exact ciphertext are not checked.",
 [AV,"radius/src/core/rfc2865.rs"],[("hiding and revealing (md5 and openssl)",AV+" from_user_password / encode_user_password")],observe=["AVP::from_user_password","AVP::encode_user_password","rfc2865::add_user_password","rfc2865::lookup_user_password"])

p("C07","Tunnel-Password is salted, hidden and read back with its tag",
 "For every password of at most 240 octets, tag, non-empty secret and 16-octet authenticator, the stored value is the tag, a two-octet salt whose top bit is set, and the zero-padded password hidden with the MD5 chain of RFC 2868 section 3.5 seeded by authenticator and salt; reading it returns the password (up to trailing zero octets) and the tag. Longer passwords, an empty secret, an authenticator of another length, and stored values whose salt has a clear top bit or whose length is not 3 plus a multiple of 16 between 19 and 243, are errors and never panic.",
 ["inputs","configurations"],"every password, tag, secret, authenticator, random salt and stored value, with both crypto back ends",
 "The tests round-trip six short passwords with one tag and one secret; the random salt is never controlled and neither limits nor malformed values are tried.",
 [AV,"radius/src/core/rfc2868.rs"],[("hiding and revealing (md5 and openssl)",AV+" from_tunnel_password / encode_tunnel_password"),("salt",AV+" rand::thread_rng")],observe=["AVP::from_tunnel_password","AVP::encode_tunnel_password","rfc2868::lookup_tunnel_password"])

p("C08","Typed attribute values have the standard wire layout and read back equal",
 "16- and 32-bit integers are stored in network byte order, IPv4 and IPv6 addresses as their octets, prefixes as a zero octet, the prefix length in bits and the prefix octets (IPv4: exactly 4, IPv6: at most 16, anything else refused), dates (from 1970 up to 2^32-1 seconds) as 32-bit seconds in network byte order, strings as their UTF-8 octets and octet strings verbatim. Reading a stored value with the same type returns exactly the value that was written, directly as well as after the packet has been encoded and decoded.",
 ["inputs"],"every value of every type, every attribute number",
 "Each type is tested with one or two values, and only against its own decoder, so a symmetric mistake in layout goes unnoticed.",
 [AV],[("constructors",AV+" from_*"),("readers",AV+" encode_*")],observe=["AVP::from_*","AVP::encode_*","Packet::encode"])

p("C09","Malformed attribute values are reported as errors, never as values",
 "Reading an attribute as a type its stored octets cannot represent returns an error: a length other than 2, 4, 5, 4, 4, 16 and 6 octets for short, integer, tagged integer, date, IPv4 address, IPv6 address and IPv4 prefix, a length outside 2 to 18 octets for an IPv6 prefix, and invalid UTF-8 for a string. Stored octets that do represent the type are always read, no stored content makes any reader panic, and reading all attributes of a number fails if any one of them is malformed.",
 ["inputs"],"every octet string of 0 to 253 octets stored under every attribute kind, alone or among others",
 "The tests feed two wrong lengths to the prefix types and nothing malformed to the other readers or to any dictionary accessor.",
 [AV]+["radius/src/core/rfc2865.rs"],[("length and UTF-8 checks",AV+" encode_*"),("lookup_all_* error propagation","radius/src/core/rfc*.rs")],observe=["AVP::encode_*","lookup_*","lookup_all_*"])

p("C10","A packet's attributes behave as one ordered list under any edits",
 "After any sequence of additions, bulk additions and deletions, a packet holds exactly the added attributes not deleted since, in the order of addition: looking up a number yields the first such attribute or nothing, looking up all yields all of them in order, deleting a number removes all of that number and nothing else, and encoding emits the whole list in order. Reading never changes a packet, and editing a clone never changes the original.",
 ["histories"],"every sequence of edit operations",
 "One test adds three attributes and deletes one; no test has repeated numbers, interleaved edits or checks the order.",
 [AT,PK],[("list operations",AT+" add/extend/del/lookup/lookup_all"),("Packet facade",PK)],state=[("attributes","ordered list of attribute-value pairs",AT+" Attributes")],observe=["Packet::add","Packet::extend","Packet::delete","Packet::lookup","Packet::lookup_all","Packet::encode"])

p("C11","Every dictionary accessor uses its attribute's number, type and values",
 "For every attribute of the supported RFC dictionaries, the accessors to add, look up, look up all and delete act on exactly that attribute's registered number and no other, and store and read its values in the dictionary's type (fixed-length octets refuse any other length). The attribute-number and value constants have the registered numbers.",
 ["inputs","histories"],"all 159 attributes and 179 named values of the 24 dictionaries, each with boundary values and next to attributes of other numbers",
 "The tests touch fourteen of the 159 attributes and nine of the value constants.",
 ["radius/src/core/rfc%s.rs"%n for n in "2865 2866 2867 2868 2869 3162 3576 3580 4072 4372 4603 4675 4818 4849 5090 5176 5607 5904 6519 6572 6677 6911 7055 7155".split()]+["dicts/"],[("generated accessors","radius/src/core/rfc*.rs"),("dictionaries","dicts/")],observe=["rfcNNNN::add_*/lookup_*/lookup_all_*/delete_*","rfcNNNN constants"])

p("C12","Long values are split over several attributes and reassembled unchanged",
 "A value of any length added to an attribute that may be continued (EAP-Message, PKM-SS-Cert, PKM-CA-Cert) is stored as a run of attributes of that number, each with 1 to 253 octets, and looking it up returns the concatenation of all attributes of that number in packet order, however they were fragmented and whatever other attributes lie between them. An empty value stores nothing and a packet without such attributes yields nothing.",
 ["inputs","histories"],"every value length that fits a packet, every fragmentation and every interleaving with other attributes",
 "No test uses a continued attribute.",
 ["radius/src/core/rfc2869.rs","radius/src/core/rfc5904.rs"],[("chunking and folding","radius/src/core/rfc2869.rs add_eap_message/lookup_eap_message; rfc5904.rs")],observe=["rfc2869::*_eap_message","rfc5904::*_pkm_ss_cert","rfc5904::*_pkm_ca_cert"])

p("C13","Tags of tunnel attributes are kept apart from their values",
 "A tagged integer is stored as its tag octet (zero if none was given) followed by the 32-bit value and read back as both, and tags above 0x1f are refused on reading. A tagged string is stored as the tag octet, if a tag was given, followed by the text; a first octet of 0x01 to 0x1f is read as the tag, one above 0x1f as part of an untagged text, a zero octet and an empty value are errors.",
 ["inputs"],"every tag octet, every value, every stored octet string",
 "The tests use three tags and one value of each kind.",
 [AV,TG,"radius/src/core/rfc2868.rs"],[("tagged constructors and readers",AV+" from_tagged_*/encode_tagged_*"),("tag classes",TG)],observe=["AVP::from_tagged_u32","AVP::encode_tagged_u32","AVP::from_tagged_string","AVP::encode_tagged_string","Tag"])

p("C14","Vendor-specific attributes carry the vendor layout of RFC 2865",
 "The message of a vendor-specific string attribute is the four octets of the vendor id, the vendor type, a vendor length counting type, length, tag (if any) and text, the tag if any, and the text, and the reported length equals that vendor length; this holds for every vendor id, vendor type, tag and every text whose message fits an attribute. Added to a packet it is stored verbatim as attribute 26.",
 ["inputs"],"every vendor id, type, tag and text of up to 247 (tagged: 246) octets",
 "Four tests check one vendor id with one short text.",
 [VS,"radius/src/core/rfc2865.rs"],[("length and serialisation",VS),("add_vsa_attribute","radius/src/core/rfc2865.rs")],observe=["VSA::message","VSA::len","rfc2865::add_vsa_attribute"])

p("C15","Generated code implements exactly the dictionaries it is generated from",
 "Running the code generator on the shipped dictionaries yields modules that compile in place of the shipped ones and behave like them: same accessors, numbers, types and value constants. For any dictionary built from the supported entries (attributes of all value types, with the tag, encryption, continuation and fixed-length options their type can carry; values, for attributes of the same dictionary or of one given to the generator with it that sorts before it; empty lines and lines starting with #) the generated modules compile and offer those attributes with those numbers, types and values, and nothing else. Entries of unknown kind or type, incomplete entries, numbers that are malformed or out of range, and tags where the type cannot carry one (anything but integers and strings; a tagged User-Password, an untagged Tunnel-Password) stop the generator with a failure.",
 ["programs"],"every dictionary made of supported entries, and every dictionary with one unsupported entry",
 "The generator has no tests at all, and the tests run only on the committed output.",
 [GE,"dicts/","scripts/generate-code.sh"],[("dictionary parser",GE+" parse_dict_file"),("templates",GE+" generate_*")],observe=["code-generator binary","compiled output"])

p("C16","The two crypto back ends are interchangeable",
 "Built with the md5 back end or with the openssl back end, the library returns the same results (bytes, values, accept or reject, success or error) for the same inputs in encoding, authenticity checks and hiding or revealing passwords. Packets and password attributes produced with one back end are accepted and read identically with the other.",
 ["inputs","configurations"],"every input of the hash-dependent functions, in both build configurations",
 "The same unit tests run in both builds, but nothing compares the results of the two, and most hash-dependent paths exist twice in the source.",
 [PK,AV],[("duplicated cfg(feature) functions",PK+", "+AV)],observe=["Packet::encode","Packet::is_authentic_*","AVP::from_*_password","AVP::encode_*_password"])

p("C17","New packets get a fresh random authenticator and the right identifier",
 "Every newly created packet has a 16-octet authenticator in which every octet is drawn afresh from the random generator, and no attributes; its identifier is the one asked for, or else drawn afresh from the random generator over all 256 values. Setting the identifier changes the identifier and nothing else.",
 ["inputs","histories"],"every outcome of the random generator, every code, secret and identifier",
 "Randomness is not controlled by the tests; they only check that a set identifier is returned.",
 [PK],[("_new",PK+" Packet::_new"),("set_identifier",PK)],observe=["Packet::new","Packet::new_with_identifier","Packet::set_identifier"])

p("C18","Shared secrets never show up in debug output or logs",
 "The debug representation of a packet does not depend on its secret, and nothing the library logs or reports as an error while decoding, encoding, verifying or serving requests contains the shared secret.",
 ["inputs","histories"],"every secret, packet and server history, at every log level",
 "No test looks at debug or log output.",
 [PK,SV,CL],[("redacting Debug",PK+" impl Debug for Packet"),("log statements",SV)],observe=["format!(\"{:?}\")","log records","error messages"])

p("C19","Packet type codes and their names map one to one",
 "Each of the 256 code octets decodes to the packet type registered for it (1-5, 11-13, 40-45, 255) or else to Invalid, encoding a packet writes the same code octet back, and each type reports its RFC name.",
 ["inputs"],"all 256 code octets",
 "The tests use three codes.",
 [CO,PK],[("enum discriminants and names",CO)],observe=["Code::from","Code::string","Packet::get_code","Packet::encode"])

p("C20","The server hands over exactly the admissible requests, unaltered",
 "The handler is invoked for a received datagram only if the secret provider returned a non-empty secret for the sender's address, the datagram is authentic under that secret (unless validation is switched off) and it decodes; an admissible datagram that is not a duplicate of a request in progress is always handed over, exactly once. The handler gets the packet decoded from that very datagram with that very secret, the sender's address and the local address, however requests interleave.",
 ["inputs","schedules","histories"],"every sequence of datagrams from every sender, every answer of the secret provider and every interleaving of the request tasks",
 "The end-to-end test sends two good requests from one client, one after the other.",
 [SV],[("gate",SV+" process_request"),("receive loop",SV+" run_loop")],state=[("receive buffer","octets of the last datagram",SV+" run_loop")],observe=["RequestHandler::handle_radius_request","SecretProvider::fetch_secret"])

p("C21","At most one handler runs per client address and identifier",
 "Under every interleaving of the request tasks, while a handler is running for a request, no handler is started for another request with the same sender IP address, sender port and identifier; such a duplicate is dropped without any effect on the request in progress or on its suppression of further duplicates.",
 ["schedules","histories"],"every arrival order of duplicates and every interleaving of their tasks on any number of worker threads",
 "No test ever sends a duplicate, and a race between two tasks would not show in a single run.",
 [SV],[("check-and-insert under one write lock",SV+" process_request")],state=[("undergoing requests","keys (address, identifier) of requests in progress",SV+" undergoing_requests_lock_arc")],observe=["RequestHandler::handle_radius_request invocations"])

p("C22","No request is blocked or lost because of another one",
 "Requests that differ in sender IP address, sender port or identifier are handled independently: a handler that has not finished does not delay or suppress them, and once a handler has ended, whether with success, an error or a panic, the next request with the same address and identifier is handled again. Nothing a client sends, and no error or panic of a handler or of the secret provider for one request, stops the server from handling the others.",
 ["schedules","histories","fault_sequences"],"every history of requests, malformed datagrams, handler outcomes (success, error, panic, never finishing) and provider failures, and every interleaving",
 "The tests' handlers always succeed for one client at a time; failing or panicking handlers and recovery afterwards are never exercised.",
 [SV],[("one task per datagram",SV+" run_loop tokio::spawn"),("release of the key",SV+" UndergoingRequest drop")],state=[("undergoing requests","keys of requests in progress",SV)],observe=["RequestHandler::handle_radius_request invocations"])

p("C23","Shutdown stops intake, lets running handlers finish and allows a restart",
 "Running the server ends with success once the shutdown trigger fires, and does not end before that as long as receiving works (a receive error ends it with that error). No datagram arriving after it ended is handled until it is run again, while those still waiting in the socket then, and those that arrive before it is run (again), are handled by that run; handlers already running are not cancelled, and after running again requests are handled as before, with those still in progress still suppressing their duplicates.",
 ["schedules","histories"],"every point at which the trigger fires relative to arrivals and handler progress, and every sequence of run and shutdown",
 "The end-to-end test shuts down an idle server twice and starts a new one each time.",
 [SV],[("select between loop and trigger",SV+" run"),("detached request tasks",SV+" run_loop")],state=[("undergoing requests","survive between runs",SV)],observe=["Server::run result","RequestHandler::handle_radius_request invocations"])

p("C24","Receive-buffer size and validation switch take effect as documented",
 "Every admissible datagram up to the configured buffer size (1500 octets unless set) is handled in full, while one that declares a length beyond it is dropped, never handled as a shorter request, without disturbing the following ones. Authenticity validation is on unless switched off, in which case every decodable datagram of a sender with a secret is handed over.",
 ["configurations","inputs"],"every buffer size, datagram size and switch setting",
 "No test sets either option or sends a large datagram.",
 [SV],[("buffer",SV+" run_loop / set_buffer_size"),("switch",SV+" set_skip_authenticity_validation")],observe=["RequestHandler::handle_radius_request"])

p("C25","A client call sends its request once and reports the first failure",
 "A call uses a fresh socket of the remote's address family, connects it to the given remote, sends exactly one datagram, which is the encoded request, and returns the response or the error variant of the first step that failed (binding, connecting, encoding, sending, receiving, decoding, timeouts); a request that cannot be encoded is never sent. Calls running concurrently on one client do not affect each other.",
 ["fault_sequences","inputs","schedules"],"every outcome of every socket operation, every request and every interleaving of two concurrent calls",
 "The tests cover one successful exchange and one timeout; no socket failure or unencodable request is ever produced.",
 [CL],[("send_packet",CL)],observe=["Client::send_packet","datagrams on the wire"])

p("C26","Client timeouts bound the wait, and only the wait",
 "With a socket timeout, a call whose response has not arrived within that time after sending started ends then with the socket timeout error, and a response that arrives earlier is returned; with a connection timeout, a connection not established in time ends the call with the connection timeout error. Without the respective timeout the call waits as long as it takes, and neither timeout is used in place of the other.",
 ["schedules","configurations"],"every arrival time relative to every timeout setting",
 "The tests use a timeout of zero seconds and no timeout.",
 [CL],[("tokio::time::timeout around connect and request",CL+" send_packet")],observe=["Client::send_packet result and time"])

p("C27","The client accepts only the authentic response to its own request",
 "A call succeeds only if the datagram received decodes, carries the identifier of the request and has a response authenticator that is valid for the request as it was sent under the shared secret; the packet returned is exactly that datagram decoded. Any other datagram makes the call fail with the decoding error.",
 ["inputs"],"every datagram an attacker or a confused server may answer with",
 "The tests only have genuine responses.",
 [CL,PK],[("identifier and authenticator check",CL+" send_packet"),("is_authentic_response",PK)],observe=["Client::send_packet"])

p("C28","Client and server exchange every attribute value unchanged",
 "When a client sends a request to a server with the same secret, the handler reads from it exactly the identifier, type and attribute values the client put in, and the client reads from the response exactly what the handler put in, for every sendable request and response type and every dictionary attribute (passwords hidden with the request authenticator cannot be carried by requests whose authenticator is computed, and are excepted there). Concurrent exchanges by several clients each get their own response.",
 ["inputs","histories"],"every attribute and value type, every sendable request type with every response type, and concurrent exchanges",
 "The end-to-end test exchanges a user name and a password in Access-Requests.",
 [CL,SV,PK,AV],[("whole stack","radius/src")],observe=["Client::send_packet","RequestHandler::handle_radius_request"])

p("C29","Servers listen where told, answer from there and do not affect each other",
 "Listening succeeds exactly when the socket can be bound to the given host and port, and otherwise returns the error of the binding; the address reported and given to the handlers is the one bound, and the connection given to a handler is that very socket, so that what the handler sends to the client leaves from there once and unaltered. Servers in one process are independent: each handles exactly the requests arriving at its own address, with its own handler, secret provider, buffer size and validation switch, and neither requests in progress nor failing handlers, receive errors, shutdown or restart of one server suppress, delay, cancel or stop anything at another.",
 ["fault_sequences","histories","schedules","configurations"],"every host, port and outcome of the binding; every sequence and interleaving of events at several servers",
 "The tests listen on 127.0.0.1 with a port chosen by the system, one server at a time, and never see a binding fail.",
 [SV],[("bind and address",SV+" Server::listen / get_listen_address"),("state per server",SV+" struct Server")],observe=["Server::listen","RequestHandler::handle_radius_request","datagrams on the wire"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
