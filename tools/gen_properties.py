#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))
SI = "smtp-server/src/interact.rs"; SR = "smtp-server/src/sendreply.rs"; SC = "smtp-server/src/config.rs"
CL = "smtp-server/src/crlflines.rs"; M = "smtp-message/src/"
MM = ("mail_meta", "the open mail transaction (accepted sender, accepted recipients), if any", SI)

p("C01", "Each command line gets exactly one reply, in order, after one greeting",
  "A session starts by sending one greeting before it reads anything, and then answers every complete line the client sends with exactly one complete reply, in arrival order, before looking at the next line. A mail-data command that is let through is answered by one go-ahead reply and, once the application has dealt with the message, by exactly one final reply. Nothing else is ever sent, and a session that ends without an error ends only because the client's input ended.",
  ["inputs", "histories", "configurations"], "every sequence of client bytes, every split into packets, every sequence of accept/reject decisions of the application",
  "The four session tests drive three fixed dialogues with one configuration; a reply that is missing, doubled or reordered on an untested branch is not seen.",
  [SI, SR, CL], [("session loop", SI + " interact"), ("command dispatch", SI + " handle_line"), ("reply emission", SR + " send_reply")], [MM], ["the sink passed to interact"])
p("C02", "A message reaches the application only inside a complete, accepted transaction",
  "The application is given a message's data only if, since the transaction was opened, it accepted the sender, accepted at least one recipient, and then accepted to receive the data, and only after the go-ahead reply has been sent for that command. The application's sender, recipient and data decisions are each asked for at most once per command and only in a state where the command is in sequence.",
  ["histories", "inputs", "configurations"], "every command history and every sequence of decisions",
  "Tests follow one happy path and a few rejections; order violations need specific histories (for example a data command after every recipient was refused).",
  [SI], [("transaction guards", SI + " handle_line")], [MM], ["the Config hooks called by handle_line"])
p("C03", "The envelope holds exactly the accepted sender and recipients",
  "The sender and recipients shown to the application with a message (and to its recipient and data decisions) are the sender it accepted for this transaction and exactly the recipients it accepted since, in order, each as the application's decision left it. A refused sender or recipient leaves no trace in any later envelope.",
  ["histories", "configurations"], "every history of MAIL/RCPT/DATA commands and decisions, including decisions that rewrite the address",
  "Needs histories mixing refusals and acceptances over several transactions; the tests check three recorded mails.",
  [SI], [("envelope bookkeeping", SI + " handle_line")], [MM], ["the metadata argument of filter_to, filter_data, handle_mail"])
p("C04", "Each outcome gets the reply configured for it, or the refusal's own",
  "When the application refuses a sender, a recipient, the data or a received message, the client gets exactly the code and text of that refusal. In every other case it gets the reply the application configured for that outcome: greeting, sender accepted, recipient accepted, go-ahead, message accepted, sender while a transaction is open, recipient or data without a sender, data without a recipient, known but unimplemented command, unrecognised line.",
  ["histories", "configurations"], "every outcome and every application configuration",
  "The test configuration gives most outcomes the same default texts, so swapping two of them is invisible.",
  [SI, SC], [("reply selection", SI + " handle_line")], [], ["the sink passed to interact"])
p("C05", "A transaction is opened, kept and closed at exactly the right commands",
  "A transaction is opened only by an accepted sender and is closed once the application has been handed the message, whatever it then decided, so that the next message needs a new sender. Refused recipients, a refused request to send data, out-of-sequence commands, unimplemented commands and unrecognised lines leave the open transaction (or its absence) exactly as it was.",
  ["histories"], "every history of commands and decisions",
  "State leaking from one message to the next, or lost on an error branch, shows only in multi-step histories the tests do not contain.",
  [SI], [("transaction state", SI + " handle_line")], [MM], ["which hook runs for the next command"])
p("C06", "A message cut off by end of input is never reported as complete",
  "If the client's input ends before the end-of-data marker, asking the data stream whether it completed reports failure, and it never reports success; it reports itself as checked only after it was asked. The session sends the final reply for a message only if the application has made that check.",
  ["inputs", "crash_points", "histories"], "every point at which the input can end, every packet split, every order of use of the data stream",
  "One test cuts one message at one point.",
  [SI, M + "data/stream.rs"], [("completion check", M + "data/stream.rs complete, was_completed"), ("guard before the final reply", SI + " handle_line")], [("state", "progress of the data stream", M + "data/stream.rs")], ["DataStream::complete", "DataStream::was_completed"])
p("C07", "A failed write ends the session with that error and no further effect",
  "As soon as writing a reply to the client fails, the session ends and returns that error. After the failure nothing more is read from the client, no application hook is called and nothing more is sent.",
  ["fault_sequences", "histories"], "every write of every history may be the failing one",
  "The tests write to an in-memory sink that never fails.",
  [SI, SR], [("error propagation", SI + " interact, handle_line; " + SR)], [], ["result of interact", "calls on the stream, the sink and the hooks after the failure"])
p("C08", "The client's input is never polled again after it has ended",
  "Once the client's input has reported its end, no part of a session (line reading, mail data, or the loop over commands) asks it for more, whatever was left unprocessed.",
  ["inputs", "histories"], "every input length and every point of the dialogue at which the input ends",
  "The streams used in tests keep answering 'end' when polled again, so a violation is invisible to them.",
  [CL, SI, M + "streamext/prependable.rs", M + "data/stream.rs"], [("line reader", CL + " next_crlf_line"), ("push-back adapter", M + "streamext/prependable.rs")], [], ["polls of the incoming stream"])
p("C09", "A reply line can only be built within the protocol's limits",
  "Building a reply line succeeds exactly when its text is at most 506 bytes long and consists only of tabs and printable ASCII characters, and a built line keeps the code, the continuation flag and the text it was given. Any other text is refused with an error, so that no built line is longer than 512 bytes on the wire or carries a line break or control character.",
  ["inputs"], "every code, flag and text",
  "Two refusal examples and two acceptance examples are tested; off-by-one limits or a wrong character range pass them.",
  [M + "reply.rs"], [("validation", M + "reply.rs ReplyLine::build")], [], ["ReplyLine::build"])
p("C10", "A reply line is written in the exact wire form and announces its exact length",
  "A reply line is written as its three-digit code (zero padded), a space if it is the last line of the reply and a hyphen otherwise, its text unchanged, and one CRLF. The length a reply line announces equals the number of bytes it writes.",
  ["inputs"], "every code below 1000, both flags, every text",
  "Tests write two lines.",
  [M + "reply.rs"], [("serialiser", M + "reply.rs ReplyLine::send_to, byte_len")], [], ["bytes written"])
p("C11", "A reply of any length becomes one well-formed (multi-line) reply",
  "Whatever text the application configured for a reply, what is sent is at least one line, every line carries the reply's code, exactly the last line is marked as the last, and the concatenated texts of the lines are the configured text. No line exceeds the line limit, even when the text is empty or its length is a multiple of the limit.",
  ["inputs", "configurations"], "every reply code and text, of any length",
  "All texts in tests are short, so only the single-line case is ever exercised.",
  [SR, M + "smtpstring.rs", SI], [("chunking", M + "smtpstring.rs byte_chunks"), ("line emission", SR + " send_reply")], [], ["the sink passed to interact"])
p("C12", "Reply codes match the RFC, stay below 1000, and defaults use the right ones",
  "Every named reply code has the value RFC 5321 assigns to it and a reply code can never hold a value of 1000 or more. Unless the application overrides them, the greeting is announced with 220, acceptances with 250, the go-ahead with 354, out-of-sequence commands with 503, unimplemented commands with 502 and unrecognised lines with 500.",
  ["configurations", "inputs"], "every named code, every way to make a code, every default of the application interface",
  "Only a few codes appear in expected outputs.",
  [M + "reply.rs", SC], [("code table", M + "reply.rs ReplyCode"), ("defaults", SC + " Config")], [], ["ReplyCode::code", "default methods of Config"])
p("C13", "A reply line is parsed exactly",
  "Parsing a reply line succeeds exactly when it consists of three decimal digits, a space or hyphen, a text without line break, and one CRLF with nothing after it. The result carries that number as its code, is marked last exactly for a space, and holds exactly that text.",
  ["inputs"], "every byte string",
  "Two examples are tested.",
  [M + "reply.rs"], [("parser", M + "reply.rs reply")], [], ["ReplyLine::parse"])
p("C14", "The grammar accepts all valid commands and only the accepted forms",
  "Every line that RFC 5321 allows for HELO, EHLO, MAIL, RCPT, DATA, RSET, VRFY, EXPN, HELP, NOOP and QUIT (verbs in any letter case, quoted and dotted local parts, host names and IPv4/IPv6 address literals, source routes, the null sender, <postmaster>, parameters) is recognised as that command with exactly the arguments it carries. Beyond that, only these deviations are accepted: extra blanks after the verb and before the line break, blanks around a HELO or EHLO line, any text as argument of VRFY, EXPN, HELP and NOOP (for the last two even directly after the verb), an address literal for HELO, missing angle brackets, an empty source route, and an address without host. A recognised line ends at its first line break.",
  ["inputs"], "every byte string",
  "Each command parser has a handful of example lines; a character class or quantifier that is slightly off is not hit by them.",
  [M + "command.rs", M + "email.rs", M + "domain.rs", M + "parameters.rs", M + "stupidparsers.rs", M + "mail/mod.rs", M + "rcpt/mod.rs"], [("grammar", M + "command.rs command and the parsers it uses")], [], ["Command::parse"])
p("C15", "The verb alone decides the command, and no line has two readings",
  "A recognised line always yields the command its first word names, and no line is accepted by the grammars of two different commands. Writing a command uses that same command's own wire form.",
  ["inputs"], "every recognised line, every command value",
  "Tests pair each verb with one sample line only.",
  [M + "command.rs"], [("alternatives and dispatch", M + "command.rs command, Command::send_to")], [], ["Command::parse", "Command::send_to"])
p("C16", "Text taken from a command cannot smuggle line breaks or controls",
  "No argument extracted from a parsed command contains a CRLF line break. Local parts, host names and parameter names and values extracted from a command contain only printable ASCII characters, and host names (other than address literals) and parameter names contain only letters, digits, dots and hyphens.",
  ["inputs"], "every byte string that parses",
  "Tests feed benign arguments; injection needs a byte the tests never contain.",
  [M + "email.rs", M + "domain.rs", M + "parameters.rs", M + "vrfy/mod.rs", M + "expn/mod.rs", M + "help/mod.rs", M + "noop/mod.rs"], [("character classes", M + "email.rs, domain.rs, parameters.rs, stupidparsers.rs")], [], ["fields of the parsed command"])
p("C17", "A written command is read back as the same command with the same arguments",
  "Writing any command whose arguments have the form parsing produces gives one CRLF-terminated line, and parsing that line yields the same command with the same arguments. This covers the null sender, omitted host names, quoted local parts, address literals and parameters with and without a value.",
  ["inputs", "programs"], "every command with arguments of parsed form",
  "Writers and parsers are tested separately on a few values; nothing compares the two languages.",
  [M + "command.rs", M + "mail/mod.rs", M + "rcpt/mod.rs", M + "email.rs", M + "domain.rs", M + "parameters.rs"], [("writers", "send_to of every command"), ("parsers", "command_*_args")], [], ["Command::send_to followed by Command::parse"])
p("C18", "Parsing succeeds only if the whole input was consumed",
  "Parsing a command, a reply line, an address or a domain succeeds only if the grammar matched and nothing of the input is left over; trailing bytes, a grammar mismatch and an incomplete input are each reported as an error.",
  ["inputs"], "every byte string and every public parsing entry point",
  "Tests mostly call the inner grammar functions, which do allow leftovers.",
  [M + "parseresult.rs", M + "command.rs", M + "reply.rs", M + "email.rs", M + "domain.rs"], [("result conversion", M + "parseresult.rs nom_to_result")], [], ["the parse entry points"])
p("C19", "A window on received bytes never reaches outside the window it was cut from",
  "A byte window cut from another one (by start, end, or both) lies inside it and denotes exactly the requested bytes; a request that would reach outside is refused. Length, content, search and promotion to an owned value all speak about exactly the window's bytes.",
  ["inputs"], "every buffer, window and requested range",
  "No test cuts a window out of one that does not start at the beginning of the buffer.",
  [M + "byteslice.rs"], [("window arithmetic", M + "byteslice.rs")], [("start, end", "the window inside the shared buffer", M + "byteslice.rs")], ["ByteSlice methods"])
p("C20", "An address's local part is unquoted exactly",
  "For every address obtained from parsing, the canonical local part of an unquoted local part is that local part, and of a quoted one it is the text between the quotes with each backslash removed and the character after it kept literally. Computing it never fails for such an address, and the raw form is left unchanged.",
  ["inputs"], "every parsable local part, with any mix of quoted pairs",
  "Five examples are tested.",
  [M + "email.rs"], [("unquoting", M + "email.rs Email::localpart")], [], ["Email::localpart"])
p("C21", "Mail data is decoded exactly, however it is split into packets",
  "The data stream yields exactly the message the client sent: everything after the data command up to and including the line break before the lone dot, with one leading dot removed from each line that starts with one. The result does not depend on how the bytes are split into packets.",
  ["inputs", "schedules"], "every byte sequence, every packet split (including empty packets), every number of pending polls in between",
  "A table of examples is tested; packet boundaries inside CR LF dot CR LF sequences combined with near-misses are only sampled.",
  [M + "data/stream.rs"], [("decoder", M + "data/stream.rs DataStream::poll_next")], [("state", "position in the CR LF dot automaton", M + "data/stream.rs"), ("buf", "bytes received and not yet decided", M + "data/stream.rs")], ["items of the DataStream"])
p("C22", "The data stream ends exactly at the end-of-data marker and gives back the rest",
  "The data stream ends at the first line consisting of a single dot and at no other place; completing it returns every byte after that marker, in order, to the command stream, and none before. Once it has ended, polling it again yields nothing and takes nothing from the command stream.",
  ["inputs", "histories", "schedules"], "every byte sequence and packet split, every order of polling and completing",
  "Tests poll until the first end only and use inputs whose marker is at a packet end.",
  [M + "data/stream.rs", M + "streamext/prependable.rs"], [("end detection and push-back", M + "data/stream.rs poll_next, complete")], [], ["DataStream::poll_next", "DataStream::complete", "the Prependable it borrows"])
p("C23", "Mail data is encoded so that no content can end the message early",
  "For any message content, given in any pieces, what is written is that content with one extra dot inserted in front of every dot that starts a line, and at the end the line is closed if it was not and a line with a single dot is added. So the end-of-data marker appears only at the very end.",
  ["inputs"], "every content and every split into pieces",
  "Examples only; a split between CR, LF and dot is sampled in a few ways.",
  [M + "data/sink.rs"], [("encoder", M + "data/sink.rs DataSink::send, end")], [("state", "position in the CR LF automaton", M + "data/sink.rs")], ["items sent to the underlying sink"])
p("C24", "Pushing bytes back into a stream keeps order and loses nothing",
  "An item pushed back into a stream is the next item it yields, followed by the stream's own items in order; pushing a second one back before the first was taken is refused and leaves the first in place. Nothing is ever dropped, duplicated or reordered.",
  ["histories"], "every sequence of polls and push-backs",
  "There is no direct test; users only push back once per item.",
  [M + "streamext/prependable.rs"], [("push-back", M + "streamext/prependable.rs")], [("prepended", "the item to yield next", M + "streamext/prependable.rs")], ["Prependable::prepend", "Prependable::poll_next"])
p("C25", "Command lines are cut exactly at each CRLF, whatever the packets",
  "Reading a line yields exactly the bytes up to and including the first CRLF not yet consumed and leaves everything after it to be read next; if the input ends first, no line is yielded and the unfinished bytes are kept. The lines do not depend on how the input is split into packets.",
  ["inputs", "schedules"], "every byte sequence and packet split",
  "One test with one line per packet.",
  [CL], [("line cutting", CL + " next_crlf_line")], [], ["next_crlf_line", "commands acted on"])
p("C26", "No client input can make the line reader, data decoder or reply path panic",
  "Whatever bytes a client sends and however they are split, reading lines, decoding mail data, pushing bytes back, checking completion after the data ended, and sending a reply whose text is printable never abort: no out-of-range access, arithmetic overflow, failed assertion or unwrapped error is reachable. The only aborts in a session come from the application breaking its own documented obligations.",
  ["inputs", "schedules"], "every client byte sequence and packet split",
  "A panic needs a specific byte position or length that samples miss.",
  [CL, SI, SR, M + "data/stream.rs", M + "data/sink.rs", M + "streamext/prependable.rs", M + "smtpstring.rs", M + "reply.rs"], [("every assertion, index, slice and unwrap", "the listed files")], [], ["panics"])
p("C27", "Stack use does not grow with input or session length",
  "Handling a session, parsing a line and decoding or encoding data use a bounded amount of stack: no function reachable from the network input calls itself, directly or through others, and no future is nested once per command.",
  ["inputs", "histories"], "every input length and session length",
  "One test with a fixed number of commands exists for a past overflow; other recursions are not covered.",
  [SI, SR, CL, M + "email.rs", M + "domain.rs", M + "parameters.rs", M + "data/stream.rs"], [("call graph", "all functions of smtp-server and smtp-message")], [], ["stack depth"])
p("C28", "Every write error while serialising is reported to the caller",
  "Whenever writing a command, an address, a parameter list or a reply line to an output fails, the serialising call returns that error and writes nothing more. A success result means every part was written completely and in order.",
  ["fault_sequences"], "every serialiser and every failing write in it",
  "Tests write to vectors, which never fail or write short.",
  [M + "command.rs", M + "reply.rs", M + "email.rs", M + "domain.rs", M + "parameters.rs", M + "mail/mod.rs"], [("serialisers", "every send_to")], [], ["results of send_to"])
p("C29", "A queued mail is marked sent only after a successful hand-over, else returned",
  "Sending a queued mail first marks it in flight, then reads it and hands it to the transport exactly once; it is marked as done only after the transport reported success. If the transport reports failure, the mail is put back and a new attempt is started for it, and it is never both marked done and put back, nor put back while the transport is still working on it.",
  ["fault_sequences", "histories", "schedules"], "every outcome of every storage and transport operation",
  "The queue crate has no tests at all.",
  ["smtp-queue/src/send_queued_mail.rs"], [("sending pipeline", "smtp-queue/src/send_queued_mail.rs send_queued_mail")], [], ["calls on Storage and Transport"])
p("C30", "At start the queue resumes all mails, recovering in-flight ones after an hour",
  "Starting the queue starts a sending attempt for every queued mail. Every mail found in flight from an earlier run is first put back, no earlier than one hour after the start, and only then is a sending attempt started for it; in-flight mails are looked for only after the queue was listed.",
  ["crash_points", "histories", "schedules"], "every content of the storage at start",
  "The queue crate has no tests at all.",
  ["smtp-queue/src/run.rs"], [("start-up", "smtp-queue/src/run.rs run")], [], ["calls on Storage, timer deadlines, spawned tasks"])
p("C31", "Unchecked code is confined and never moves pinned streams",
  "Unsafe code appears only where a value is pinned or an already pinned field is reached, and each such place keeps the pinned value in place: it is not moved, replaced or handed out mutably afterwards. Types that must uphold an invariant keep their fields private to the module that maintains it.",
  ["programs"], "every program using the crates' public interface",
  "Tests cannot show absence of undefined behaviour.",
  [M + "streamext/prependable.rs", SI], [("pin projections", M + "streamext/prependable.rs poll_next; " + SI + " interact")], [], ["unsafe blocks"])
p("C32", "Each new mail is announced once before its sender is decided",
  "For every sender command that is in sequence, the application is first told of the new mail, exactly once, and only then asked about the sender; it is told of no new mail at any other time. Every hook that is given the session's metadata is given that of this very session, as the application's last hook left it.",
  ["histories", "configurations"], "every history of commands and decisions",
  "The test application does not implement the announcement and keeps no metadata.",
  [SI, SC], [("announcement", SI + " handle_line"), ("metadata", SI + " interact")], [("conn_meta", "the metadata the application keeps per session", SI)], ["the Config hooks called by handle_line"])
p("C33", "A failed write while mail data is sent is reported and nothing follows it",
  "While mail data is sent through the data sink, the first failure of the output is reported with the output's own error, and nothing is written after it. Data is given to the output only after it said it is ready. The end of the message is reported as sent only when all that was written has been flushed; success is never reported after a failure.",
  ["inputs", "schedules", "faults"], "every content in every pieces, an output that stalls or fails at any operation",
  "The tests write into a vector, which never fails or stalls.",
  [M + "data/sink.rs"], [("data sink", M + "data/sink.rs send, end")], [], ["operations on the inner sink"])
p("C34", "Texts, addresses and commands hold exactly what they were made from",
  "A text gives back, whole and in order, the bytes it was made from, with their number; joining two texts gives the first followed by the second; two texts are equal exactly if their bytes are. A command or an address made from given parts gives back those parts. A text made from something that writes itself is what that wrote, and a failure to write is reported. None of this aborts, except asking a text for a byte it does not have.",
  ["inputs"], "every text and every part",
  "Tests build a few short values.",
  [M + "smtpstring.rs", M + "email.rs", M + "vrfy/mod.rs", M + "parameters.rs"], [("constructors and accessors", M + "smtpstring.rs; " + M + "email.rs; the command modules")], [], ["accessors"])
p("C35", "Default replies can be sent, and the greeting names the host",
  "The reply texts an application gets by default are fixed, not empty and printable, so that they can always be sent. The default greeting is the application's host name, a blank and its banner. By default data is accepted and the announcement of a mail does nothing.",
  ["configurations"], "every default of the application interface, every host name and banner",
  "Defaults an application overrides in the tests, or whose command the tests do not send, are never looked at.",
  [SC], [("default methods", SC + " Config")], [], ["the default methods of Config"])
p("C36", "Whatever waits will be woken",
  "A stream, or an asynchronous operation, of the library reports that it is not ready only if in that very call something it waits for (the stream or the output underneath) reported to be not ready to the caller's own waker, or the caller was woken already. So a reader, the mail data, a line being read, a reply and mail data being sent never sleep for ever while what they wait for becomes ready.",
  ["schedules", "inputs"], "every packet split and every order of readiness",
  "The tests' streams are always ready.",
  [M + "streamext/prependable.rs", M + "data/stream.rs", M + "data/sink.rs", CL, SR], [("polls", M + "streamext/prependable.rs poll_next; " + M + "data/stream.rs poll_next"), ("await points", CL + "; " + SR + "; " + M + "data/sink.rs")], [], ["result of every poll, and the waker passed on"])
p("N01", "Memory held for one session is bounded",
  "A client cannot make the server buffer an unbounded amount of data for one line.",
  ["inputs"], "every input", "No test sends long lines.",
  [CL], [("line buffer", CL)], [], ["process memory"])
p("N02", "A woken session is run again by the executor",
  "Whenever the input, the output or an application future becomes ready and wakes the session, the session is run and continues.",
  ["schedules"], "every wake-up order of the executor and the external streams", "Tests run on a blocking executor.",
  [SI], [("await points", SI)], [], ["task wake-ups"])
p("N03", "A mail survives a crash of the process at any time",
  "A mail accepted into the queue is on stable storage and is found again after a crash.",
  ["crash_points"], "every crash point", "No storage implementation exists to test.",
  ["smtp-queue/src/storage.rs"], [("storage interface", "smtp-queue/src/storage.rs")], [], ["storage contents"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
