"""What each check proves and with which drivers its failures are replayed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l); TITLES[d['id']] = d['title']

COMMON_TRUST = ['clang 18 front end (types, overload resolution, template instantiation of the AST the verifier reads)',
    'cxv verification-condition generator (/verif/cxv: semantics of the C++ subset and of the standard library classes used)',
    'z3']
COMMON_ASSUME = ['standard library containers, strings, streams and smart pointers behave as specified; memory allocation does not fail',
    'extraction: the functions are read from clang\'s AST of the current headers, instantiated by cxv/tu/core.cpp; comments, attributes and the preprocessor branches not taken on Linux are dropped']
NOWRAP = 'fewer than 2^62 lines are entered in one session (the size_t counters of the history do not wrap)'
SHAPES = 'the class templates are verified for the instantiations in cxv/tu/core.cpp (every built-in integral type, bool, char, string, by value and by const reference, 0 to 4 parameters, function objects and function pointers, both list forms)'
HANDLERS = 'user code (handlers, actions, exception handlers) is arbitrary: it may use the whole public interface and throw anything, but does not destroy the session or the menu it runs in, and does not call Feed of the same session'
COPY = 'a copy of a function object behaves as the original'
LEAF = 'commands of the user\'s own classes derived from cli::Command implement the interface contracts of Command::Exec, Help and GetCompletionRecursive (those of the library are proved to)'
TREE = ['Menu::parent*', 'Menu::cmds*', 'CliSession::current*', 'CliSession::globalScopeMenu*', 'Command::enabled*']
ASIO = 'asio performs the operations it is asked for: it calls each completion handler once, with what its documentation promises'
TTY = 'tcgetattr and tcsetattr read and set the mode of the terminal; read(2) and select(2) behave as specified; std::mutex and std::condition_variable behave as specified; nobody else changes the mode of the terminal'
TSAN = ['-fno-sanitize=all', '-fsanitize=thread']
# (contract module, unit names or None for all); drivers: (name, compile flags, libraries)
PROPS = {
 'C01': dict(units=[('tokenize', None)], drivers=[('c01', [], [])]),
 'C02': dict(units=[('convert', None)], drivers=[('c02', [], [])], assumptions=['std::stof, stod and stold, and the extraction operator of a user type, are taken as they are: what they read is not specified further']),
 'C07': dict(units=[('history', ['History::*', 'History: NewCommand then ForgetLatest']), ('feed', ['CliSession::Feed', 'CliSession::ExecFromHistory']), ('session', ['CliSession::CliSession']), ('confine', ['CliSession::history*'])], drivers=[('history', ['-DPROP=7'], []), ('session', ['-DPROP=7'], [])], seconds=10, assumptions=[HANDLERS, NOWRAP]),
 'C08': dict(units=[('history', ['History::NewCommand', 'History::Previous', 'History::Next', 'History: *']), ('storage', ['CliSession::PreviousCmd', 'CliSession::NextCmd'])], drivers=[('history', ['-DPROP=8'], [])], assumptions=[NOWRAP]),
 'C10': dict(units=[('storage', None), ('history', ['History::NewCommand', 'History::Previous', 'History::Next', 'History::ForgetLatest', 'History::GetCommands', 'History::LoadCommands', 'History::History']), ('session', ['CliSession::CliSession', 'CliSession::Exit']), ('confine', ['VolatileHistoryStorage::commands*', 'CliSession::history*', 'CliSession::exit*'])], drivers=[('storage', [], ['-lpthread']), ('history', ['-DPROP=10'], [])], assumptions=[NOWRAP, 'the history file can be opened, and nobody else writes it']),
 'C11': dict(units=[('terminal', [f'Terminal::{x}' for x in ('SetLine', 'Keypressed', 'GetLine', 'ResetCursor', 'Terminal')])], drivers=[('terminal', ['-DPROP=11'], [])]),
 'C12': dict(units=[('terminal', ['*']), ('rang', None)], drivers=[('terminal', ['-DPROP=12'], [])], assumptions=['each printable character of the line occupies one column and the line fits the row (the statement says so); colour sequences take no space']),
 'C03': dict(units=[('dispatch', ['command(*', 'list command(*']), ('confine', ['Command::enabled*'])], drivers=[('session', ['-DPROP=3'], [])], assumptions=[SHAPES, HANDLERS]),
 'C04': dict(units=[('dispatch', ['Menu::*']), ('feed', ['CliSession::Feed']), ('session', ['CliSession::CliSession', 'Cli::WrongCommandHandler*']), ('confine', TREE)], drivers=[('session', ['-DPROP=4'], [])], assumptions=[HANDLERS, NOWRAP, LEAF]),
 'C06': dict(units=[('feed', ['CliSession::Feed']), ('session', ['Cli::StdExceptionHandler*']), ('dispatch', ['Menu::*', 'command(*', 'list command(*'])], drivers=[('session', ['-DPROP=6'], [])], assumptions=[HANDLERS, NOWRAP, LEAF]),
 'C09': dict(units=[('feed', None), ('session', ['CliSession::CliSession']), ('history', ['History::NewCommand', 'History::ForgetLatest', 'History::At', 'History::Show', 'History: NewCommand then ForgetLatest']), ('confine', ['CliSession::fromHistory*', 'CliSession::history*'])], drivers=[('session', ['-DPROP=9'], [])], assumptions=[HANDLERS, NOWRAP, SHAPES]),
 'C14': dict(units=[('processor', None), ('terminal', ['*']), ('keys', ['InputDevice::Notify', 'LinuxKeyboard::ActivateInput', 'LinuxKeyboard::DeactivateInput', 'LinuxKeyboard::Read', 'InputSource::*', 'LinuxKeyboard::*', 'the terminal gets its mode back']), ('storage', ['CliSession::PreviousCmd', 'CliSession::NextCmd']), ('session', ['CliSession::Prompt', 'CliSession::Exit'])], drivers=[('processor', [], ['-lpthread']), ('suspend', [], ['-lpthread']), ('suspend@tsan', TSAN, ['-lpthread'])], seconds=12, assumptions=[HANDLERS, NOWRAP, 'the processor is verified for TelnetScreen, which is also the local screen on Linux and macOS']),
 'C15': dict(units=[('telnet', None), ('ends', ['Session::Send', 'Session::Read']), ('server', ['TelnetSession::OnConnect'])], drivers=[('telnet', [], ['-lpthread'])], assumptions=['asio delivers the received bytes in order and writes whole buffers']),
 'C16': dict(units=[('keys', None), ('ends', ['CliTelnetSession::CliTelnetSession'])], drivers=[('keys', [], ['-lpthread'])], assumptions=['read(2) on the terminal returns the next byte, or nothing at its end; the pipe of the keyboard could be created, the standard input is open and fewer than 1024 files are']),
 'C17': dict(units=[('session', ['CliSession::Enter', 'CliSession::Exit', 'CliSession::Prompt', 'CliSession::CliSession', 'Cli*Action(function)']), ('ends', None), ('filesession', None), ('confine', ['CliSession::exit*'])], drivers=[('ends', ['-DPROP=17'], ['-lpthread']), ('session', ['-DPROP=17'], [])], seconds=10, assumptions=[HANDLERS, NOWRAP, ASIO]),
 'C19': dict(units=[('scheduler', None), ('server', ['GenericAsioScheduler*'])], drivers=[('server@asio', ['-DPROP=19'], ['-lpthread']), ('scheduler', [], ['-lpthread']), ('scheduler@tsan', TSAN, ['-lpthread'])], seconds=10, assumptions=['std::mutex and std::condition_variable behave as specified (mutual exclusion; a notification wakes the waiters)']),
 'C22': dict(units=[('keys', ['InputDevice::Notify', 'LinuxKeyboard::*', 'InputSource::*', 'the terminal gets its mode back']), ('processor', None)], drivers=[('suspend', [], ['-lpthread']), ('suspend@tsan', TSAN, ['-lpthread'])], seconds=12, assumptions=[TTY, HANDLERS]),
 'C23': dict(units=[('server', ['Server::*', 'CliGenericTelnetServer*', 'TelnetSession::OnConnect']), ('ends', None)], drivers=[('server', ['-DPROP=17'], ['-lpthread']), ('ends', ['-DPROP=17'], ['-lpthread'])], seconds=10, assumptions=[ASIO, HANDLERS]),
 'C20': dict(units=[('filesession', None), ('ends', ['GenericCliAsyncSession*']), ('session', ['CliSession::Exit', 'CliSession::Prompt'])], drivers=[('ends', ['-DPROP=20'], ['-lpthread'])], assumptions=[HANDLERS, ASIO]),
 'C05': dict(units=[('menu', None), ('dispatch', ['Menu::*', 'command(*', 'list command(*']), ('help', ['Menu::*', 'CliSession::Help', 'command(*', 'list command(*']), ('complete', None), ('feed', ['CliSession::Feed']), ('session', ['CliSession::CliSession']), ('confine', TREE + ['Descriptor::*', 'CmdHandler::*'])], drivers=[('session', ['-DPROP=5'], [])], assumptions=[SHAPES, HANDLERS, LEAF, COPY, 'std::weak_ptr::lock returns the object exactly while it exists']),
 'C13': dict(units=[('complete', None), ('menu', ['Menu::*']), ('session', ['CliSession::CliSession']), ('confine', TREE)], drivers=[('session', ['-DPROP=13'], [])], assumptions=[LEAF, 'std::sort and std::unique behave as specified; std::isspace accepts every value of char (as in the C library of this platform)']),
 'C21': dict(units=[('help', None), ('menu', ['Menu::*']), ('session', ['CliSession::CliSession']), ('confine', TREE)], drivers=[('session', ['-DPROP=21'], [])], assumptions=[SHAPES, LEAF, 'the stream is in its default format state (no field width)']),
 'C18': dict(units=[('outstream', None), ('session', ['CliSession::CliSession', 'CliSession::~CliSession', 'global output stream: one object'])], drivers=[('outstream', [], [])], assumptions=['a registered stream outlives its registration (a session and its stream end together)']),
}
# the contracts of virtual functions (and of functions known under several names): the units that prove them of the library's own code;
# of classes a user derives they remain assumed
IMPL = {
 'Command::Exec': ['Menu::Exec', 'command(*)::Exec', 'list command(*)::Exec'],
 'Command::Help': ['Command::Help', 'Menu::Help', 'command(*)::Help', 'list command(*)::Help'],
 'Command::GetCompletionRecursive (interface)': ['Command::GetCompletionRecursive', 'Menu::GetCompletionRecursive'],
 'HistoryStorage::Commands': ['VolatileHistoryStorage::Commands', 'FileHistoryStorage::Commands'],
 'HistoryStorage::Store': ['VolatileHistoryStorage::Store', 'FileHistoryStorage::Store'],
 'InputDevice::ActivateInput': ['LinuxKeyboard::ActivateInput'], 'InputDevice::DeactivateInput': ['LinuxKeyboard::DeactivateInput'],
 'Scheduler::Post': ['LoopScheduler::Post', 'GenericAsioScheduler<*>::Post'],
 'CommandProcessor::CommandProcessor': ['CommandProcessor<*>::CommandProcessor'],
 'Server::Server': ['Server::Server(*'], 'Server<NewBoostAsioLib>::CreateSession': ['CliGenericTelnetServer<*>::CreateSession'],
 'Session::OnConnect': ['TelnetSession::OnConnect', 'CliTelnetSession::OnConnect'], 'Session::OnDataReceived': ['TelnetSession::OnDataReceived'],
 'Session::OnDisconnect': ['TelnetSession::OnDisconnect'], 'Session::OnError': ['TelnetSession::OnError'], 'TelnetSession::Output': ['CliTelnetSession::Output'],
}
for k, v in PROPS.items(): v['title'] = TITLES[k]
KNOWN = {}
kf = os.path.join(HERE, 'KNOWN_FINDINGS')
if os.path.exists(kf):
    for l in open(kf):
        if l.startswith('KNOWN-FINDING: property='):
            p, t = l[len('KNOWN-FINDING: property='):].rstrip('\n').split(' ', 1); KNOWN.setdefault(p, []).append(t)

NA = {}
