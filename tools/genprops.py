#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

S='src/stream.rs'; C='src/smtp_client.rs'; X='src/codec.rs'; R='src/response.rs'; E='src/extension.rs'
A='src/authentication.rs'; K='src/commands.rs'; T='src/types.rs'; ER='src/error.rs'; U='src/util.rs'

p('C01','Message content arrives exactly as given',
 'For every message, an RFC 5321 server that undoes dot-stuffing recovers exactly the bytes that were given to be sent, with nothing added except the line terminator that a message not ending in CRLF lacks (an empty message stays empty). The end-of-data mark appears exactly once, after the whole content, and nothing else follows it on the wire, so no content can end the data early or be taken for commands.',
 ['inputs','histories'],'every message byte string (all dot/CR/LF patterns at every position, any length, bytes or reader), also as second or later message on a connection',
 'Dot-stuffing depends on the byte history at every position; the one codec test samples a single concatenation and none sends a message through a transport to a decoder.',
 [X,S,T],[('dot-stuffing state machine','ClientCodec::encode'),('message terminator','SmtpStream::message')],
 ['bytes written to the stream between the 354 reply and the final reply'],
 [('escape_count','position within a CRLF . sequence',X)])

p('C02','A message is accepted whole or not at all',
 'If the connection breaks, a write fails, the message source fails, or the send is dropped at any point, the server has received either no complete message or exactly the complete message; a truncated or altered message is never terminated as complete, also not by what the same transport is used for afterwards. When the message source fails, the send reports an error and nothing of that message is accepted.',
 ['crash_points','fault_sequences','inputs'],'every byte position at which the written stream may be cut, every I/O call that may fail, every suspension point at which the send may be dropped, every point at which the source may fail',
 'Tests never cut, fail or cancel a transmission; the guarantee quantifies over all cut points of all messages.',
 [S,X,C,T],[('terminator written only after the whole encoded content','SmtpStream::message'),('errors propagate before the terminator','SmtpStream::message')],
 ['what a server parsing each prefix of the written bytes has accepted'])

p('C03','A send succeeds exactly when the server accepted everything',
 'Sending an email reports success only if the server replied positively to the sender, to every recipient, to the request to send data and to the end of the data, and then returns that last reply; against a server that accepts all of these it does report success. If the server rejects the sender, any recipient or the data request, the send fails with the first such rejection and no message content is ever transmitted; a rejection of the content makes the send fail with that rejection.',
 ['inputs','histories','configurations'],'every combination of server verdicts (all reply codes, single- and multi-line) over sender, recipients, data and content, with and without pipelining, any number of recipients',
 'No test performs a send at all; the verdict combinations and both command modes are unbounded.',
 [C,S,ER],[('replies checked one by one before content','SmtpTransport::send'),('negative replies become errors','SmtpStream::read_response')],
 ['return value of send','commands and content seen by the server'])

p('C04','Replies stay matched to their commands over a connection\'s history',
 'On one transport used for any sequence of sends, logins and quit, each operation\'s outcome comes from the server\'s replies to that operation\'s own commands, whatever earlier operations the server rejected or were cut short by an I/O error, a malformed reply or being dropped. In particular no message is ever delivered with sender, recipients or content of another, none is delivered whose send reported a rejection, and no operation is reported with a reply that belongs to another.',
 ['histories','inputs','configurations'],'every sequence of operations on one transport, every assignment of accept/reject verdicts to their commands, and every point at which one of them may be cut short, pipelined or not',
 'Needs multi-step histories with rejections at particular commands; no test runs even one operation over a stream.',
 [C,S],[('all replies to a pipelined group are read','SmtpTransport::send'),('one reply read per command','SmtpStream::command'),('no further use after an unanswered command','SmtpStream::check_in_step')],
 ['server-side deliveries','replies returned to the caller, each tagged with the command it answers'])

p('C05','Server replies are read exactly per the SMTP reply grammar',
 'A reply is one or more CRLF-terminated lines with the same three-digit code (first digit 2-5, second 0-5), where all but the last have "-" after the code and the last has a space and text or nothing; every such reply is returned with exactly its code and the text of every line in order, and exactly its bytes are consumed from the stream. Anything else, including lines with differing codes, is reported as an error and never as a reply.',
 ['inputs'],'every reply text: all codes, any number and length of lines, any text, followed by any further bytes; and every malformed variant',
 'Three hand-written samples; the grammar, the exact consumption and the reply-by-reply reading loop are untested.',
 [R,S],[('reply parser','parse_response'),('line-wise reading loop','SmtpStream::read_response')],
 ['Response::from_str','replies returned by operations','bytes left in the stream'])

p('C06','Outcomes do not depend on I/O segmentation or timing',
 'However the bytes of the server\'s replies are split over reads, however many bytes each write accepts, however the message source hands out its bytes, and wherever reads, writes or flushes are temporarily not ready, the client sends the same bytes and every operation has the same outcome.',
 ['schedules','inputs'],'every segmentation of reads and writes and every placement of not-ready answers over a whole session',
 'The existing tests use in-memory buffers that never split, delay or shorten an I/O operation.',
 [S,C,T,X],[('read_line accumulation until a full reply parses','SmtpStream::read_response'),('write_all/flush','SmtpStream::write'),('Message reader delegation','Message::poll_read')],
 ['bytes written','results of all operations'])

p('C07','Broken connections and malformed replies surface as errors',
 'If a read, write or flush fails, the connection ends, or the server sends bytes that do not form a reply, then the operation in progress returns an error: it never reports success, panics, or loops without progress. A reply cut off by the end of the connection is never taken for a complete one.',
 ['fault_sequences','inputs'],'every I/O call of every operation as the place of the fault, every fault kind, every truncation point and every malformed byte string up to a bound',
 'No test injects an I/O error, end of stream or malformed reply into an operation.',
 [S,C,R,ER],[('error propagation','SmtpStream::read_response, SmtpStream::write'),('incomplete reply at end of stream','SmtpStream::read_response')],
 ['result of the operation during which the fault occurs'])

p('C08','The envelope reaches the server exactly, and addresses cannot inject',
 'For every envelope the server sees exactly one sender command naming exactly the given sender (empty for none) followed by one recipient command per given recipient, exactly as given, in order, duplicates included. No address containing a control character, whitespace, "<", ">" or a non-ASCII character can be constructed, every other string is kept unchanged, and an envelope without recipients is refused.',
 ['inputs'],'every address string over all of Unicode, every sender/recipient list of any length',
 'Seven sample addresses; command lines are tested only for one address and never for lists sent over a transport.',
 [T,K,C],[('character check','EmailAddress::new'),('non-empty check','Envelope::new'),('command formatting','MailCommand, RcptCommand'),('recipient loop','SmtpTransport::send')],
 ['EmailAddress::new / from_str','command lines received by the server'])

p('C09','Extensions are used exactly when offered and enabled',
 'In a send, the 8BITMIME body parameter is given exactly when the server offered 8BITMIME, the SMTPUTF8 parameter exactly when the server offered SMTPUTF8 and the client enabled it, and sender and recipient commands are sent without waiting for single replies exactly when the server offered PIPELINING and the client has pipelining enabled. No other parameter is ever given.',
 ['configurations','inputs'],'every set of offered extensions, every client configuration, any envelope and message',
 'No test covers a send; the product of server offers and client settings is not sampled at all.',
 [C,E],[('feature checks before each use','SmtpTransport::send')],
 ['MAIL/RCPT lines and their timing relative to replies'],
 [('server_info','features from EHLO',C),('client_info','client settings',C)])

p('C10','Capabilities are read exactly from the EHLO reply',
 'The server name is the first word of the first line of the EHLO reply, and a capability counts as offered exactly when a later line starts with its keyword as a whole word, in any letter case; an authentication mechanism exactly when it is one of the words of an AUTH line. Unknown lines, keywords that merely contain a known one, and the first line never add a capability.',
 ['inputs'],'every EHLO reply: any number of lines, any words, any case, any order, duplicates',
 'Two sample replies; case variants, look-alike keywords and the first line are not covered.',
 [E,C],[('EHLO line parsing','ServerInfo::from_response')],
 ['ServerInfo.name / features / supports_*','behaviour of later operations'])

p('C11','Credentials are only sent under a mechanism both sides permit',
 'Logging in with a list of accepted mechanisms uses the first one in the caller\'s order that the server offers, and only that one, whatever the outcome; if there is none, nothing at all is sent. No byte derived from the credentials is transmitted by any other operation, and the default list for unencrypted connections permits none.',
 ['configurations','histories','inputs'],'every set of offered mechanisms, every ordered accepted list, every server verdict, within histories with other operations',
 'No test performs a login over a stream; selection logic is untested.',
 [C,A,E],[('mechanism selection','SmtpTransport::try_login'),('default lists','DEFAULT_ENCRYPTED_MECHANISMS, DEFAULT_UNENCRYPTED_MECHANISMS')],
 ['bytes written to the stream'])

p('C12','A login exchange carries the credentials and reports the verdict',
 'For all credentials, what the server decodes from a PLAIN, LOGIN or XOAUTH2 exchange is exactly the given user name and secret in that mechanism\'s form, and credentials which that form cannot carry (a NUL in PLAIN, 0x01 in XOAUTH2) are refused without anything being sent; in LOGIN the user name answers only the prompts "User Name", "Username:" and "Username", the secret only "Password" and "Password:", and any other, undecodable or unexpected challenge makes the login fail without sending either. The login succeeds exactly when the server\'s final reply is positive after at most ten challenges, fails with the server\'s rejection if it rejects, and fails after answering ten challenges without a verdict.',
 ['inputs','histories'],'every user name and secret (any length, any characters), every sequence of challenges and final replies',
 'Four fixed strings on the message formatting only; challenge sequences and base64 framing over a stream are untested.',
 [A,K,C],[('mechanism responses','Mechanism::response'),('challenge loop','SmtpTransport::auth'),('base64 framing','AuthCommand')],
 ['AUTH lines decoded by the server','result of auth / try_login'])

p('C13','STARTTLS hands the stream over exactly at the TLS boundary',
 'Upgrading succeeds exactly when the server offered STARTTLS and replied positively to it; the returned stream then has had nothing but the STARTTLS command written and exactly the reply consumed, so every byte after the reply is still there to be read and no later plaintext is sent. If the server did not offer it nothing is sent and an error is returned, if it refuses the refusal is returned, and a session opened on the returned stream uses only what the server offers there.',
 ['inputs','schedules','configurations'],'every offer, every reply (code, lines), any bytes following the reply in the same or later segments, every segmentation',
 'No test calls starttls; the boundary depends on buffering and segmentation.',
 [C,S],[('feature gate','SmtpTransport::starttls'),('exact reply consumption','SmtpStream::read_response'),('stream returned without extra buffering','SmtpStream::into_inner')],
 ['returned stream contents','bytes written','second session on the returned stream'])

p('C14','Client and server never end up waiting for each other',
 'Against a server that answers every command, every operation terminates: the client never waits for a reply while bytes it has written are still unflushed or while no reply is due to it, also not after an operation that was cut short. This holds also for transports with limited buffering: without pipelining for any buffer sizes, and with pipelining whenever the transport can hold 4096 bytes of commands, however many recipients there are and however little room there is for replies.',
 ['schedules','configurations','inputs'],'every operation sequence, configuration and verdict, write-back buffering, every bounded buffer size in both directions, any number of recipients',
 'Deadlock depends on flushing and on buffer sizes; tests write into growable memory buffers.',
 [S,C],[('flush after each write','SmtpStream::write, SmtpStream::message'),('size limit of a pipelined group','SmtpTransport::send')],
 ['whether the client future completes in a closed system with a bounded transport'])

p('C15','Extension parameter values survive xtext encoding',
 'For every string, the xtext encoding of an extension parameter value decodes back to exactly that string. It contains no space, "=", or ASCII control character, and every "+" in it introduces exactly two uppercase hexadecimal digits.',
 ['inputs'],'every string over Unicode, as value of any MAIL or RCPT parameter',
 'Four samples, none with a control character, where the number of digits matters.',
 [U,E],[('xtext encoder','XText'),('parameter formatting','MailParameter, RcptParameter')],
 ['rendered parameters'])

p('C16','A session starts with the greeting, then EHLO, and only then opens',
 'Opening a transport first waits for the server\'s complete positive greeting, unless told not to expect one, in which case it reads nothing before speaking; then it sends exactly one EHLO with the configured name. It succeeds exactly when the reply to EHLO is positive and names the server; a rejecting greeting makes it fail without anything having been sent, and a rejected EHLO makes it fail with that rejection and nothing further sent.',
 ['inputs','schedules','configurations'],'every greeting and EHLO reply (all codes, lines), every hello name, with and without expected greeting, every segmentation',
 'No test opens a transport.',
 [C,S,E],[('greeting then EHLO','SmtpTransport::new')],
 ['bytes written and when, relative to replies','result of new'])

p('C17','Both async runtimes behave alike',
 'Built for tokio or for async-std, the library writes the same bytes and returns equivalent results for the same operations, server behaviour, message sources and I/O conditions.',
 ['configurations','inputs','schedules','fault_sequences'],'every session, segmentation and fault explored, on both builds',
 'Each test runs on one build at a time with no comparison, and no test touches the runtime-specific I/O code.',
 [S,X,T,C,ER],[('cfg-selected trait imports and Message::poll_read implementations','src/types.rs, src/stream.rs, src/codec.rs')],
 ['observation traces of both builds'])

p('C18','A rejected or abandoned operation leaves the transport usable',
 'After a send or login that the server rejected, a login the client itself gave up on a challenge, or a send whose message source failed, later operations on the same transport behave towards a conforming server as on a fresh connection: in particular a later acceptable email is accepted and delivered exactly once to exactly its recipients. No reply or transaction left over from the failed operation decides their outcome.',
 ['histories','configurations'],'every history of operations with every placement of rejections, client-side login aborts and source failures',
 'Requires failing one operation and then running another against a stateful server; no test does either.',
 [C,S,K],[('open transaction reset before the next one','SmtpTransport::send'),('login exchange cancelled','SmtpTransport::auth'),('source read before the transaction starts','SmtpTransport::send')],
 ['results of later operations','server-side transaction state and deliveries'])

p('C19','Client settings are independent and take effect',
 'Whatever the order and repetition in which hello name, SMTPUTF8, pipelining and greeting settings are made, the session behaves according to the last value given for each and the documented default for those never set (no SMTPUTF8, pipelining used, greeting expected, hello name [127.0.0.1]). Setting one never changes another.',
 ['configurations'],'every sequence of builder calls up to a bound',
 'The builder is not tested at all.',
 [C,E],[('builder methods','SmtpClient'),('client id formatting','ClientId')],
 ['bytes exchanged by a session opened with the configuration'])

p('C20','Rejections are classified by code and reported in full',
 'In every operation a 4yz reply yields a transient error and a 5yz reply a permanent error carrying exactly the server\'s code and all text lines in order; a positive reply yields no such error. The error\'s text shows all lines the server gave.',
 ['inputs','histories'],'every reply code and text, in the place of every reply the client waits for (greeting, EHLO, login, STARTTLS, sender, recipient, data, content, quit)',
 'One error is formatted by hand; no reply is ever driven through an operation.',
 [ER,R,S],[('severity mapping','From<Response> for Error'),('positive check','Response::is_positive')],
 ['error variant, response and Display text'])

p('C21','Every command renders as one well-formed line',
 'Each public command renders as its verb, a single space before each argument or parameter given and none otherwise, the arguments in the given order, and one terminating CRLF with no other CR or LF, for all arguments free of CR and LF. Address arguments appear in angle brackets, client identifiers as domain, [IPv4] or [IPv6:...] literals, sizes in decimal, and parameter values as keyword=value, or keyword alone when there is no value.',
 ['inputs'],'every command type, every argument, every list of parameters',
 'A dozen samples with at most three parameters.',
 [K,E],[('Display implementations','commands.rs, extension.rs')],
 ['rendered text'])

p('C22','No command runs ahead of the replies it depends on',
 'Without pipelining the client never has more than one unanswered command; with pipelining it sends ahead only the sender and recipient commands of one email. In both cases the data request is sent only after every recipient was answered, the content only after the data request was answered, and nothing follows the content, EHLO, a login step, STARTTLS or QUIT before its reply was completely read.',
 ['schedules','histories','configurations'],'every operation sequence, verdict assignment, segmentation and delay of replies, any number of recipients',
 'Ordering between writes and reads is invisible to in-memory tests that never perform a session.',
 [C,S],[('command/response alternation','SmtpStream::command'),('pipelined group','SmtpTransport::send')],
 ['position of every written byte relative to reply bytes consumed'])

p('C23','Values read back as they were given',
 'What can be read back from a value is what was put into it or what the server sent: a reply\'s code, its parts, the code test for every number, whether it is positive, its lines, first line and first word; an address\'s text; an envelope\'s sender and recipients; an email\'s envelope, and its message as a reader, which yields exactly the given bytes in order and then the end, or the source\'s error where the source fails, for every sequence of buffer sizes.',
 ['inputs','configurations'],'every code and text, address, envelope, message source and sequence of buffer sizes, on both builds',
 'A handful of samples; no test reads a message at all, and only tokio is built by default.',
 [R,T],[('reply accessors','Response, Code'),('address, envelope and email accessors','types.rs'),('message reader','Message::poll_read')],
 ['accessor results','bytes and errors read from a message'])

p('C24','Sessions in one process do not influence each other',
 'However the steps of several sessions are interleaved in one process, and whatever sessions ran before, every session sends the same bytes, has the same outcomes and delivers the same messages as it would alone: settings, offered extensions, credentials, addresses, replies and content of one session never show up in another.',
 ['schedules','configurations'],'every interleaving of the suspension points of two or three sessions up to a number of switches, regular interleavings of many, every combination of the session kinds',
 'No test runs a session, let alone two at once; a shared buffer or cache is only exposed when one session is suspended at a particular point.',
 [S,C,X],[('state of a session','SmtpStream, SmtpTransport')],
 ['bytes written','outcomes','deliveries and decoded credentials per session'])

p('C25','A conforming server never sees a command out of sequence',
 'Whatever operations are performed on one transport in whatever order, whatever a conforming server answers, and also after operations that failed, were rejected or were dropped, every command sent is one that an RFC 5321 server may not refuse as out of sequence: EHLO first; MAIL only when no transaction is open; RCPT only after an accepted MAIL; DATA only after an accepted recipient; content only after the request for it was accepted; AUTH only when no transaction is open; a login step only as answer to a challenge; and only commands the server knows, each one line. The only exceptions: recipients sent ahead, by pipelining, of the reply that rejects the sender; a second login the caller asks for; the "*" that gives up a login.',
 ['histories','schedules','fault_sequences','configurations'],'every sequence of operations with every assignment of replies, every place where an operation is cut short, any number of recipients, with and without pipelining',
 'The state of the session at the server depends on the whole history; no test performs two operations.',
 [C,S,K],[('resetting after failed transactions','SmtpTransport::send'),('replies outstanding','SmtpStream::check_in_step')],
 ['commands in the state in which a strict server received them'])

p('C26','An I/O failure is reported as the error it is',
 'When a call of the transport or of a message source fails, the operation that meets the failure reports an I/O error that carries exactly that error - its kind, its system error number, the error inside it - which is reachable as the error\'s source and whose text is part of the displayed text. Only an operation that had already failed, through a rejection it had read or a login it had given up, may report that instead; it never reports a rejection that the server did not send.',
 ['fault_sequences','histories','inputs'],'every kind of I/O error, system error number and own error type, at every I/O call of every kind of operation and at every place of a message source, also after other operations',
 'No test makes a transport or a source fail.',
 [ER,S,X,T],[('I/O errors passed on','From<io::Error> for Error'),('source','Error::source')],
 ['error value, source chain and Display text'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
