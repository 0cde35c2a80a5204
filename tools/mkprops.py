#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, readable)."""
import json, os
H='include/cli/'; D='include/cli/detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Command-line tokenization follows the documented quoting rules',
 'For every input line, the words handed to a command are exactly those of the documented grammar: space, tab and newline separate words; a quote of either kind opens a new word that ends at the next unescaped quote of the same kind and keeps every character in between; an unquoted "!" is a word by itself. A backslash before a quote or a backslash yields that character alone, a backslash before any other character is kept together with it, inside and outside quotes. No word is ever empty, no other character is lost, added or reordered, and consequently any non-empty text quoted with its quotes and backslashes escaped comes back as exactly one word equal to it.',
 ['inputs'],'all byte strings of any length',
 'The tests sample about sixty hand-written lines; the guarantee is over every string, including interactions of quote state, escape state and separators at arbitrary positions.',
 [D+'split.h'],[('per-character state machine','Text::Eval*'),('removal of empty words','Text::RemoveEmptyEntries'),('entry point','split')],
 [('state/prev_state/sentence_type','lexer mode','class Text'),('splitResult','words so far','class Text')],['the vector returned by split()','argument values seen by command handlers'])

p('C02','Parameters of every type convert exactly or are rejected',
 'For every string and every built-in integral parameter type, conversion succeeds if and only if the string is an optional sign ("+" for all, "-" for signed types) followed by one or more decimal digits whose mathematical value fits the type, and then yields exactly that value; every other string is rejected as a bad conversion, and no conversion executes undefined behaviour. A bool parameter accepts exactly "true", "false" and the decimal integers with value 1 or 0; a char parameter accepts exactly the one-character strings; a string parameter is passed unchanged. A float, double or long double parameter accepts exactly the strings without white space that the standard conversion for that very type (std::stof, stod, stold) reads to their last character without an error, and yields the value read. A parameter of any other type is read with that type\'s own stream extraction, and is accepted exactly if the extraction succeeds and leaves nothing but white space.',
 ['inputs'],'all strings, for signed char, short, int, long, long long, their unsigned counterparts, bool, char, std::string, float, double, long double, and a user type with an arbitrary extraction operator',
 'The tests try one in-range value, one negative, one non-number and one absurdly long number per type; boundary values, the overflow detection arithmetic and undefined behaviour are not sampled.',
 [D+'fromstring.h'],[('digit accumulation with overflow detection','unsigned_digits_from_string'),('sign handling and range check','signed_from_string, unsigned_from_string'),('bool/char','from_string<bool>, from_string<char>'),('floating point','from_string<float>, from_string<double>, from_string<long double>'),('other types','from_string<T>')],
 (),['value received by the handler','bad_conversion exception'])

p('C03','A handler runs only with a full, correctly converted argument list',
 'A command accepts a line if and only if it is enabled, its name equals the first word, the number of remaining words equals the number of its parameters and every one of them converts to the corresponding parameter type; its handler is then called exactly once, on the session output stream, with the converted values in the order typed. In every other case the handler is not called at all. A command taking a list of strings accepts any number of words and receives all words after the name, unchanged and in order, and whatever a handler throws is reported as an exception of that handler, never as a refusal of the line.',
 ['inputs','programs'],'all word lists and enabled states, for handlers of any arity and any combination of parameter types, whether or not the handler throws',
 'Tests run a handful of commands with zero, one or two parameters and values that do not exercise partial conversion, argument order across types or exceptions derived from bad_cast.',
 [H+'cli.h'],[('arity and name test, conversion','VariadicFunctionCommand::Exec'),('recursive argument binding','Select::Exec'),('free-form commands','FreeformCommand::Exec')],
 (),['calls received by handlers','boolean result of Exec'])

p('C04','Each line is resolved to the first matching command and to nothing else',
 'For every menu tree, current menu and non-empty line, the line is offered first to the global commands in order, then to the entries of the current menu in insertion order, then to its ancestors starting from the parent; a word naming a submenu (or, going upward, an ancestor by its name or "..") passes the rest of the words on to that menu by the same rule. The first entry that accepts the line is the only one executed; a line consisting only of menu names selects the menu it names as the current menu and nothing else ever changes the current menu. If nothing accepts the line the wrong-command handler is called exactly once with the line and nothing else happens; a blank line does nothing.',
 ['inputs','configurations'],'all finite menu trees (any depth, width, names, enabled states, duplicates), all current menus, all word lists',
 'Tests use one fixed tree of depth three with unique names; resolution order among duplicates, parent chaining from deep menus and disabled menus on the path are not exercised.',
 [H+'cli.h'],[('line entry point','CliSession::Feed'),('scan of a menu and its ancestors','Menu::ScanCmds'),('descent into a submenu','Menu::Exec, Menu::ExecParent, Menu::HandleCommand')],
 [('current','current menu of the session','CliSession::current'),('cmds/parent','menu tree','Menu')],['handler calls','prompt after the line','wrong-command handler'])

p('C05','Disabled and removed commands are inert; nothing else is affected',
 'While a command or menu is disabled it is never executed or entered, not listed by help and not offered as a completion, nor is anything inside a disabled menu reachable or offered by way of its name; enabling it restores all three. Removing an entry through its handle removes exactly that entry from its menu and leaves the order, state and number of the others unchanged. Every operation on a handle is harmless, any number of times and in any order, also when the entry or its menu no longer exists.',
 ['histories','configurations'],'all sequences of enable/disable/remove over all handles of all menu trees, interleaved with commands, help and completion requests',
 'No test uses the handle returned by Insert at all.',
 [H+'cli.h'],[('handle operations','CmdHandler::Enable/Disable/Remove, Descriptor'),('enabled tests','Exec, Help, GetCompletionRecursive, HandleCommand, ScanCmds'),('insertion','Menu::Insert')],
 [('enabled','flag of each entry','Command::enabled')],['execution','help output','completions'])

p('C06','Exceptions from handlers never escape the processing of a line',
 'Whatever a command handler throws, feeding a line to a session returns normally: an exception derived from std::exception is reported exactly once, together with the line, to the registered exception handler (or its message is printed on the session stream if none is registered), any other exception is reported on the session stream. The session stays usable: its current menu and the menu tree are unchanged by the failure and the line stays recorded in the history.',
 ['inputs','programs'],'all lines and all handler behaviours (normal return, any exception type, conversion-like exceptions such as std::bad_cast included)',
 'Tests throw one std::logic_error and one int from commands without parameters, and never check the arguments passed to the exception handler or the state afterwards.',
 [H+'cli.h'],[('catch clauses around the dispatch','CliSession::Feed'),('default and custom reporting','Cli::StdExceptionHandler'),('conversion failure vs handler exception','VariadicFunctionCommand::Exec')],
 (),['return of Feed','exception handler calls','session output'])

p('C07','The history records entered lines in order, bounded, with stable numbers',
 'For every sequence of session operations, the history holds the most recently entered lines in order of entry, never more than its capacity, dropping only the oldest; a line equal to the newest entry is not recorded twice in a row. Entries are numbered consecutively by age, a new entry gets the next number, and an entry keeps its number and text for as long as it is retained, whatever is added or dropped around it; looking up a number that is not retained fails with an out-of-range error. No sequence of operations and no capacity (0 included) makes the history read or write out of bounds.',
 ['histories','configurations'],'all sequences of enter/load/browse/forget/lookup operations, all strings, all capacities',
 'Tests run seven fixed scripts on capacities 3 and 10; capacity 0 and 1, lookups on an empty history, and numbers after eviction combined with browsing are not sampled.',
 [D+'history.h'],[('insertion and eviction','History::Insert, History::NewCommand'),('number/index mapping','History::IdToIndex, IndexToId, At'),('removal of the newest','History::ForgetLatest')],
 [('buffer','entries, newest first','History::buffer'),('idOfOldest','number of the oldest retained entry','History::idOfOldest')],['History::At','output of the history command'])

p('C08','Arrow-key browsing walks the history and keeps every edit',
 'While browsing, Up moves one entry towards the oldest and Down one entry towards the newest, never skipping an entry and stopping at either end; the line being typed when browsing starts becomes the newest position and is found again when coming back down. Moving up from a line stores the text as edited there, and every other entry is left exactly as it was. Entering a line while browsing replaces the saved line by the entered one as the newest entry (or drops it if it repeats the previous entry) and leaves browsing mode.',
 ['histories'],'all interleavings of Up, Down and entered lines with arbitrary edited texts, all capacities',
 'Tests cover seven fixed scripts; the claim quantifies over all interleavings with arbitrary edits, including at capacity and from an empty history.',
 [D+'history.h'],[('browse up','History::Previous'),('browse down','History::Next'),('leave browsing','History::NewCommand')],
 [('current','browsing position','History::current'),('mode','inserting or browsing','History::mode')],['values returned by Previous/Next'])

p('C09','"!n" re-executes exactly the entry listed under number n',
 'The history command lists every retained entry once, oldest first, with the number under which "!number" finds it. Entering "! n" for a retained entry executes exactly the text of that entry and records that text, not the "!" line, in the history; for any other number no command is executed and an out-of-range error (for an entry that would execute itself, an error) is reported like any other exception, and the session goes on.',
 ['histories','inputs'],'all histories, capacities and unsigned numbers n, including the very first line of a session',
 'No test executes a command from the history.',
 [H+'cli.h',D+'history.h'],[('listing','History::Show'),('re-execution','CliSession::ExecFromHistory'),('lookup','History::At'),('dropping the "!" line','History::ForgetLatest')],
 (),['session output','handler calls'])

p('C10','Stored history is exactly the lines of the session, newest kept, order kept',
 'When a session ends, what is handed to the history storage is exactly the sequence of entries the session itself recorded and still retains, oldest first, each once; entries loaded from the storage at the start are not handed back. A storage returns the concatenation of everything stored since it was last cleared, in order, cut to its most recent N lines where N is its size, and returns nothing after being cleared. The file storage returns the same for lines without newline characters, also from a new object on the same file.',
 ['histories','configurations'],'all sequences of stores, clears and sessions, all capacities and all newline-free strings',
 'Tests store two fixed batches of six in a storage of ten and one fixed script for the session side; duplicates, size 0, and a session ending while browsing are not sampled.',
 [D+'history.h',H+'volatilehistorystorage.h',H+'filehistorystorage.h',H+'cli.h'],[('selection of the session commands','History::GetCommands'),('hand-over at exit','CliSession::Exit, Cli::StoreCommands'),('volatile storage','VolatileHistoryStorage'),('file storage','FileHistoryStorage')],
 [('commands','number of recorded lines of this session','History::commands')],['HistoryStorage::Commands()'])

p('C11','The line editor applies each key exactly and Enter submits the edited line',
 'For every sequence of keys, the edited line and cursor are those of the obvious editor: a character is inserted at the cursor, Backspace removes the character before it, Delete the one under it, Left/Right move by one within the line, Home/End go to its ends, and keys that cannot apply do nothing. Enter yields exactly the current line and leaves an empty one; Up, Down, Tab, end-of-input and clear-screen are reported as such without changing the line. The cursor never leaves the line.',
 ['histories'],'all key sequences of any length and all characters',
 'No test exercises the terminal at all.',
 [D+'terminal.h'],[('key handling','Terminal::Keypressed'),('line replacement','Terminal::SetLine')],
 [('currentLine','edited text','Terminal::currentLine'),('position','cursor','Terminal::position')],['symbol and string returned by Keypressed','GetLine()'])

p('C12','What the terminal shows is always the edited line with the cursor in place',
 'After every key and every replacement of the line, interpreting everything written to the output stream on a terminal (printable characters advance, backspace moves left, colour sequences take no space) shows, for single-byte printable characters, from the column where the input starts, exactly the edited line followed by blanks, with the terminal cursor at the editor cursor. No leftover of a previous, longer line remains visible.',
 ['histories'],'all sequences of keys and line replacements over printable characters, colour mode on or off',
 'No test looks at the echo; the claim needs the exact number of backspaces and blanks for every line length, cursor position and pair of old and new lines.',
 [D+'terminal.h'],[('echo of each key','Terminal::Keypressed'),('redraw','Terminal::SetLine')],
 [('position','cursor','Terminal::position')],['bytes written to the session stream'])

p('C13','Completions are exactly the enabled continuations of the typed line',
 'For every menu tree, current menu and typed line, the completions offered are exactly, without duplicates and sorted: the names of the enabled global commands, entries of the current menu and its parent that start with the typed text (leading blanks ignored), and, where the typed text starts with the name of an enabled menu on that level (or ".." for the parent), instead of the name alone that name, a space, and each completion of the rest of the text inside that menu. A disabled current menu offers nothing. In particular completing never proposes a disabled or unknown command.',
 ['inputs','configurations'],'all finite menu trees, all current menus, all strings',
 'Tests query eleven prefixes on one fixed tree with everything enabled, and never go through a session, a disabled entry or the ".." shortcut.',
 [H+'cli.h'],[('session completions','CliSession::GetCompletions'),('menu completions','Menu::GetCompletions, GetCompletionRecursive, GetCompletionWithParent, GetCompletionRecursiveHelper'),('command completion','Command::GetCompletionRecursive')],
 (),['vector returned by GetCompletions'])

p('C14','Keys drive the session as documented: Tab, Up/Down, Enter, Ctrl-L, end of input',
 'Tab replaces the line by the only completion plus a space if there is exactly one, otherwise by the longest common prefix of the completions if that is longer than the line, otherwise it lists all completions and redraws prompt and line; with no completion it does nothing. Enter passes exactly the typed line to the session once, with keyboard input suspended meanwhile, and then shows the prompt; Up and Down replace the line by the previous or next history entry; Ctrl-L clears the screen and redraws prompt and line; end of input ends the session. The common prefix used is a prefix of every completion and no longer string is.',
 ['inputs','histories'],'all key events, lines, and sets of completions',
 'Only the common-prefix function is tested, on a few vectors; the reaction to keys is not tested.',
 [D+'commandprocessor.h',D+'commonprefix.h'],[('key reaction','CommandProcessor::NewCommand'),('common prefix','CommonPrefix')],
 (),['calls on session, terminal and input device','bytes written'])

p('C15','Telnet control bytes never reach the line, data bytes always do, in order',
 'For every byte stream received from a telnet client and every way of cutting it into packets, the bytes delivered to the line input are exactly the data bytes in order: a doubled 255 delivers one 255; a 255 followed by any other byte, the option byte of WILL/WONT/DO/DONT and the content of a subnegotiation deliver nothing (a subnegotiation ends at 255 SE or at the next protocol command). Every WILL and every DO is answered, once its option byte has arrived, by exactly one three-byte negotiation about the same option, WONT and DONT by nothing. On output every newline is sent as carriage return plus newline and every other character unchanged.',
 ['inputs','schedules'],'all byte sequences and all segmentations into packets',
 'The remote session is not tested at all.',
 [D+'genericasioremotecli.h',D+'server.h'],[('protocol state machine','TelnetSession::Consume, Data, Command'),('answers','RxWill, RxDo, SendIacCmd'),('output encoding','TelnetSession::Encode, Session::xsputn/overflow')],
 [('state','protocol state','TelnetSession::state'),('escape','previous byte was 255','TelnetSession::escape')],['calls of Output','bytes sent'])

p('C16','Byte sequences are decoded into the right keys, one key per sequence',
 'For every byte sequence, both the telnet session and the local Linux keyboard decode ESC [ A/B/C/D/H/F as Up, Down, Right, Left, Home and End, ESC [ 3 ~ as Delete, 8 or 127 as Backspace, 12 as clear-screen, 4 or 255 as end of input, the Enter sequence (CR NUL or CR LF over telnet, LF locally) as Enter, and every other ordinary byte as that character; any other sequence (ESC and one byte; ESC [, parameter bytes 32 to 63 and one final byte; over telnet CR and one other byte) is reported once, as ignored. Each sequence produces exactly one key event, in order, and leaves the decoder ready for the next one, so decoding never depends on how the bytes were grouped.',
 ['inputs','histories'],'all byte sequences of any length',
 'No test feeds bytes to either decoder.',
 [D+'genericasioremotecli.h',D+'linuxkeyboard.h',D+'inputdevice.h'],[('telnet key decoder','CliTelnetSession::Output'),('local key decoder','LinuxKeyboard::Get'),('hand-over','InputDevice::Notify')],
 [('step','decoder state','CliTelnetSession::step')],['key events posted'])

p('C17','Ending a session runs the exit actions, stores the history and stops it',
 'Entering a session, of any kind (file, local, asynchronous, telnet), runs the global enter action and then the session enter action, each at most once and only if set. When a session ends, by the exit command or by end of input, its session exit action runs first and then the global exit action, each exactly once and only if set, the history of the session is stored exactly once, and no prompt is shown any more; a telnet session also closes its connection. Ending a session never throws because an action was not configured or the peer is already gone.',
 ['histories','configurations','fault_sequences'],'all combinations of configured and missing actions, all session kinds, connection already closed or not',
 'Tests check that one global action of a file session ran; missing actions, the telnet session, order and multiplicity are not checked.',
 [H+'cli.h',H+'clifilesession.h',D+'genericasioremotecli.h',D+'server.h'],[('session end','CliSession::Exit, Enter, Prompt'),('global actions','Cli::EnterAction, Cli::ExitAction'),('telnet','CliTelnetSession constructor, OnConnect, Session::Disconnect')],
 [('exit','session has ended','CliSession::exit')],['action calls','storage','output','socket'])

p('C18','The global output stream reaches every open session exactly once',
 'Text written to the global output stream is written in full, once for each open session and in order, to the stream of every session open at that moment and to no other stream; opening a session adds exactly its stream and closing it removes exactly the registration of that session, leaving the others untouched.',
 ['histories'],'all sequences of opening and closing sessions and writing, with distinct or shared streams',
 'No test writes to the global stream.',
 [H+'cli.h'],[('fan-out','OutStream::xsputn, OutStream::overflow'),('registration','OutStream::Register, UnRegister, CliSession constructor and destructor')],
 [('ostreams','registered streams','OutStream::ostreams')],['content of the session streams'])

p('C19','The schedulers run every posted task once, in order, without lost wake-ups',
 'Tasks posted to the loop scheduler, from any thread, are executed in posting order, each at most once, in the thread that calls it, and never while its lock is held, so tasks may post or stop. Executing one task removes exactly the oldest one even if it throws; after a stop no further task is executed and every blocked call returns. Every access to the shared state happens under the lock and every change that can unblock a waiter comes with a notification of all waiters that none of them can miss. The asio schedulers hand every posted task to their context, the given one or one of their own that is kept running, exactly once, and run, step and stop exactly that context.',
 ['schedules','histories'],'all interleavings of Post, Stop, Stopped, ExecOne, PollOne and Run from any number of threads',
 'Tests post a single task and run it; order, stop, exceptions with several tasks pending and wake-ups under concurrency are not exercised.',
 [H+'loopscheduler.h',D+'genericasioscheduler.h'],[('queue under mutex and condition variable','LoopScheduler::Post, ExecOne, PollOne, Stop, Stopped, Run'),('asio','GenericAsioScheduler')],
 [('tasks','pending tasks','LoopScheduler::tasks'),('running','not stopped','LoopScheduler::running')],['order and thread of task execution'])

p('C22','The local keyboard can be suspended, and ends, at any time',
 'While keyboard input is suspended - as during the execution of every command - the reading thread of the local keyboard takes no byte from the terminal and the terminal is in the mode it had before the keyboard was created, so that a command can read the standard input itself; what is typed meanwhile stays for whoever reads first. Once input is resumed every byte is delivered once, in order, and raw mode is back. Destroying the keyboard, at any time (waiting for a key, suspended, at the end of the input), ends its thread, never blocks, and gives the terminal its mode back. A signal interrupting the wait for a key loses no key and does not end the input.',
 ['schedules','histories','fault_sequences'],'all interleavings of the reading thread with suspending, resuming and destroying; all outcomes of select and read',
 'The local keyboard needs a terminal and two threads; no test creates one.',
 [D+'linuxkeyboard.h',D+'inputdevice.h',D+'commandprocessor.h'],[('suspension','LinuxKeyboard::ActivateInput, DeactivateInput, Read'),('terminal mode','LinuxKeyboard::ToManualMode, ToStandardMode'),('end of the thread','InputSource::WaitKbHit, Stop; LinuxKeyboard destructor')],
 [('enabled','input is not suspended','LinuxKeyboard::enabled'),('oldt','terminal mode before the keyboard','LinuxKeyboard::oldt')],['bytes left in the terminal','terminal mode','keys delivered','thread end'])

p('C23','A telnet server serves every connection with a session of its own, until it is destroyed',
 'Every connection accepted by a telnet server, whichever way the server was created, gets exactly one session of its own, on that connection, which is started; the server then goes on accepting, whatever becomes of that connection and also after an attempt that failed. The session gets the enter and exit actions and the history size configured in the server at that moment. A new connection first receives complete telnet commands only, then the output of the enter actions and the prompt. Destroying the server ends the accepting of connections and nothing else: sessions already open go on working, and nothing of the destroyed server is used any more.',
 ['histories','fault_sequences'],'all sequences of connections, failures, commands, disconnections and the destruction of the server',
 'The telnet server is not tested at all.',
 [D+'server.h',D+'genericasioremotecli.h'],[('accepting','Server::Accept, constructors'),('sessions','CliGenericTelnetServer::CreateSession, EnterAction, ExitAction; Session::Start'),('greeting','TelnetSession::OnConnect, CliTelnetSession::OnConnect')],
 [('acceptor','listening socket','Server::acceptor')],['bytes received by the clients','actions called','connections open'])

p('C20','A session reading lines executes every line once, in order, until exit or end of input',
 'A session reading lines from a stream, or asynchronously from the standard input, feeds every newline-terminated line of it (an unterminated last line is not executed), exactly once, in order and without its newline, showing the prompt before each; it stops reading right after a line that ends the session and ends the session itself exactly once at end of input. A session on a stream never reads beyond the line being executed and refuses to be created on invalid streams.',
 ['inputs'],'all stream contents and all outcomes of the commands on the lines',
 'Tests use one or two lines and never check that reading stops or that ending happens once.',
 [H+'clifilesession.h',D+'genericcliasyncsession.h'],[('read loop','CliFileSession::Start'),('constructor checks','CliFileSession::CliFileSession')],
 [('exit','loop termination flag','CliFileSession::exit')],['sequence of prompts and fed lines'])

p('C21','Help lists exactly the enabled entries in scope, in order',
 'The help command lists, in order, each enabled global command, then each enabled entry of the current menu in insertion order, then the parent menu if it is enabled, each exactly once with its name and description and, for commands, its parameters (the given parameter names if any, otherwise the type of every parameter in order). A disabled current menu lists nothing. Nothing disabled, removed or outside that scope is listed and the listing changes no state.',
 ['configurations'],'all menu trees, current menus and enabled states',
 'Tests look for four substrings in one help output.',
 [H+'cli.h'],[('session help','CliSession::Help'),('menu help','Menu::MainHelp, Menu::Help'),('command help','VariadicFunctionCommand::Help, FreeformCommand::Help, PrintDesc')],
 (),['session output'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
