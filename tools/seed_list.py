S = 'detail/split.h'; F = 'detail/fromstring.h'; H = 'detail/history.h'
C, T, PR, G, SV, FI, VS, L, FH, K = 'cli.h', 'detail/terminal.h', 'detail/commandprocessor.h', 'detail/genericasioremotecli.h', 'detail/server.h', 'clifilesession.h', 'volatilehistorystorage.h', 'loopscheduler.h', 'filehistorystorage.h', 'detail/linuxkeyboard.h'
SESSION = '''
#include <iostream>
#include <sstream>
#include <cli/cli.h>
using namespace cli;
'''
TEL = '''
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using namespace cli::detail;
static boost::asio::io_context io;
struct T : TelnetSession {
    T() : TelnetSession(boost::asio::ip::tcp::socket(io)) {}
    void Output(char c) override { data += c; }
    void Send(const std::string& m) override { sent += m; }
    void Rx(const std::string& s) { OnDataReceived(s); }
    std::ostream& Out() { return OutStream(); }
    std::string data, sent;
};
'''
SEEDS = [
 dict(id='c01-isspace', property='C01', edits=[(S, """    void EvalWord(char c)
    {
        if (c == ' ' || c == '\\t' || c == '\\n')""", """    void EvalWord(char c)
    {
        if (std::isspace(static_cast<unsigned char>(c)))"""), (S, '#include <cassert>', '#include <cassert>\n#include <cctype>')],
  needs='a carriage return, form feed or vertical tab inside an unquoted word', breaks='the character is dropped and the word is cut in two',
  demo=r'''
#include <vector>
#include <string>
#include <cli/detail/split.h>
int main() {
    std::vector<std::string> v; cli::detail::split(v, "run ab\x0b" "cd x");
    return v == std::vector<std::string>{"run", "ab\x0b" "cd", "x"} ? 0 : 1;
}'''),
 dict(id='c01-escape-first', property='C01', edits=[(S, '''            prev_state = State::word;
            state = State::escape;
            splitResult.emplace_back("");''', '''            prev_state = State::word;
            state = State::escape;
            if (splitResult.empty() || !splitResult.back().empty())
                splitResult.emplace_back("");'''),
   (S, '''        sentence_type = ( c == '"' ? SentenceType::double_quote : SentenceType::quote);
        splitResult.emplace_back("");''', '''        sentence_type = ( c == '"' ? SentenceType::double_quote : SentenceType::quote);
        if (splitResult.empty() || !splitResult.back().empty() || prev_state == State::word)
            splitResult.emplace_back("");
        prev_state = State::sentence;'''),
   (S, '''        else if (c == '!')
        {
            splitResult.emplace_back(1, c);
        }
        else
        {
            state = State::word;
            splitResult.emplace_back(1, c);
        }''', '''        else if (c == '!')
        {
            splitResult.emplace_back(1, c);
        }
        else
        {
            state = State::word;
            if (!splitResult.empty() && prev_state == State::escape)
                splitResult.back() += c;
            else
                splitResult.emplace_back(1, c);
        }'''),
   (S, '''        splitResult.back() += c;
        state = prev_state;
    }''', '''        splitResult.back() += c;
        state = prev_state;
        if (state == State::sentence && c == ' ')
            prev_state = State::escape; // the blank has been kept
    }''')],
  needs='an escaped blank as the last escape of a quoted text, then an unquoted word', breaks='the following word is glued to the quoted one',
  demo=r'''
#include <vector>
#include <string>
#include <cli/detail/split.h>
int main() {
    std::vector<std::string> v; cli::detail::split(v, R"("a\ b" c d)");
    return v == std::vector<std::string>{"a\\ b", "c", "d"} ? 0 : 1;
}'''),
 dict(id='c02-overflow-wrap', property='C02', edits=[(F, 'if (result != ((tmp-digit)/10) || (tmp < result))', 'if (tmp < result)')],
  needs='a number too large for its type whose wrapped value is not smaller than its prefix, e.g. 655 for unsigned char', breaks='an out-of-range number is accepted with a wrong value',
  demo=r'''
#include <algorithm>
#include <cli/detail/fromstring.h>
int main() {
    try { cli::detail::from_string<unsigned char>("655"); return 1; } catch (const cli::detail::bad_conversion&) {}
    try { cli::detail::from_string<unsigned int>("42949672990"); return 1; } catch (const cli::detail::bad_conversion&) {}
    return cli::detail::from_string<unsigned char>("255") == 255 ? 0 : 2;
}'''),
 dict(id='c02-max-plus-one', property='C02', edits=[(F, '''    if (val > static_cast<U>( std::numeric_limits<T>::max() ))
        throw bad_conversion();
    return static_cast<T>(val);''', '''    if (static_cast<U>(val - 1) > static_cast<U>( std::numeric_limits<T>::max() ) && val != 0)
        throw bad_conversion();
    return static_cast<T>(val);''')],
  needs='exactly one more than the maximum of a signed type', breaks='2147483648 is accepted as an int and becomes negative',
  demo=r'''
#include <algorithm>
#include <cli/detail/fromstring.h>
int main() {
    try { cli::detail::from_string<int>("2147483648"); return 1; } catch (const cli::detail::bad_conversion&) {}
    return cli::detail::from_string<int>("2147483647") == 2147483647 ? 0 : 2;
}'''),
 dict(id='c08-edit-lost', property='C08', edits=[(H, '''            buffer[current] = line;
            if (current != buffer.size()-1)
                ++current;''', '''            if (current != buffer.size()-1)
            {
                buffer[current] = line;
                ++current;
            }''')],
  needs='editing the oldest entry while browsing, pressing Up there, then going down and up again', breaks='the edit of the oldest entry is lost when Up is pressed on it',
  demo=r'''
#include <iostream>
#include <cli/detail/history.h>
int main() {
    cli::detail::History h(10); h.NewCommand("one"); h.NewCommand("two");
    h.Previous(""); h.Previous("two"); // at "one"
    if (h.Previous("one edited") != "one edited") return 1;
    return 0;
}'''),
 dict(id='c07-browse-dup', property='C07', edits=[(H, 'if (buffer.size() > 1 && buffer[1] == item)', 'if (buffer.size() > 1 && current != 0 && buffer[1] == item)'),
   (H, '''        current = 0;
        latestRecorded = false;
        if (mode == Mode::browsing)
        {
            assert(!buffer.empty());''', '''        latestRecorded = false;
        if (mode == Mode::browsing)
        {
            assert(!buffer.empty());'''), (H, '''                buffer[current] = item;
                ++commands;''', '''                buffer[0] = item;
                ++commands;'''), (H, '''                latestRecorded = !buffer.empty();
            }
        }
        mode = Mode::inserting;''', '''                latestRecorded = !buffer.empty();
            }
        }
        current = 0;
        mode = Mode::inserting;''')],
  needs='Up, Down back to the edit line, then entering a line equal to the newest entry', breaks='the line is recorded twice in a row',
  demo=r'''
#include <iostream>
#include <sstream>
#include <cli/detail/history.h>
int main() {
    cli::detail::History h(10); h.NewCommand("a"); h.NewCommand("b");
    h.Previous("b"); h.Next(); h.NewCommand("b");
    std::ostringstream o; h.Show(o);
    return o.str() == "\n0\ta\n1\tb\n\n" ? 0 : 1;
}'''),

# ---- further seeds
 dict(id='c05-remove-tail', property='C05', edits=[(C, 'scmds->erase(i);', 'scmds->erase(i, scmds->end());')],
  needs='Remove() on a command that is not the last one inserted', breaks='the commands inserted after the removed one disappear too',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0;
    auto a = root->Insert("a", [&](std::ostream&) { ++n; }); auto b = root->Insert("b", [&](std::ostream&) { n += 10; });
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10);
    a.Remove(); s.Feed("a"); s.Feed("b");
    return n == 10 ? 0 : 1;
}"""),
 dict(id='c03-abbrev', property='C03', edits=[(C, """            if (Name() == cmdLine[0])
            {
                bool""", """            if (Name().compare(0, cmdLine[0].size(), cmdLine[0]) == 0)
            {
                bool""")],
  needs='a line whose first word is a prefix of the name of a command with typed parameters', breaks='the command runs although it was not named',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0;
    root->Insert("sum", [&](std::ostream&, int a, int b) { n = a + b; });
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10);
    s.Feed("su 1 2"); if (n != 0) return 1;
    s.Feed("sum 1 2"); return n == 3 ? 0 : 1;
}"""),
 dict(id='c06-forget', property='C06', edits=[(C, """        catch(...)
        {
            out << "Cli.""", """        catch(...)
        {
            history.ForgetLatest();
            out << "Cli.""")],
  needs='a handler that throws something that is not a std::exception', breaks='the line is missing from the history',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); root->Insert("t", [](std::ostream&) { throw 3; });
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10);
    s.Feed("x"); s.Feed("t"); o.str(""); s.ShowHistory();
    return o.str().find("\tx\n") != std::string::npos && o.str().find("\tt\n") != std::string::npos ? 0 : 1;
}"""),
 dict(id='c10-volatile-trim', property='C10', edits=[(VS, 'commands.begin()+static_cast<dt>(commands.size()-maxSize)', 'commands.begin()+static_cast<dt>(std::min(cmds.size(), commands.size()-maxSize))'), (VS, '#include <deque>', '#include <deque>\n#include <algorithm>'), (VS, """            commands.insert(commands.end(), cmds.begin(), cmds.end());
""", """            if (cmds.size() == 1 && !commands.empty() && commands.back() == cmds.front()) return;
            commands.insert(commands.end(), cmds.begin(), cmds.end());
""")],
  needs='two sessions that each store a single line, the same one', breaks='the stored history is not the concatenation of what was stored',
  demo=r"""
#include <cli/volatilehistorystorage.h>
int main() {
    cli::VolatileHistoryStorage s(3); s.Store({"a", "b"}); s.Store({"b"});
    if (s.Commands() != std::vector<std::string>{"a", "b", "b"}) return 1;
    s.Store({"c", "d", "e", "f"}); return s.Commands() == std::vector<std::string>{"d", "e", "f"} ? 0 : 1;
}"""),
 dict(id='c11-setline-pos', property='C11', edits=[(T, """        position = currentLine.size();
    }

    std::string GetLine""", """        position = std::min(position, currentLine.size());
    }

    std::string GetLine"""), (T, '#include <string>', '#include <algorithm>\n#include <string>')],
  needs='a recalled line longer than the cursor position, then typing', breaks='the next character goes into the middle of the line',
  demo=r"""
#include <sstream>
#include <cli/detail/terminal.h>
#include <cli/detail/telnetscreen.h>
#include <cli/detail/inputdevice.h>
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using namespace cli::detail;
int main() {
    std::ostringstream o; Terminal<TelnetScreen> t(o);
    t.SetLine("abc"); t.Keypressed(std::make_pair(KeyType::ascii, 'd'));
    return t.Keypressed(std::make_pair(KeyType::ret, ' ')).second == "abcd" ? 0 : 1;
}"""),
 dict(id='c12-end-long', property='C12', edits=[(T, """                    << std::string(currentLine.begin() + pos, currentLine.end())
                    << afterInput << std::flush;""", """                    << std::string(currentLine.begin() + pos, currentLine.end() - (currentLine.size() - position > 8 ? 1 : 0))
                    << afterInput << std::flush;""")],
  needs='End pressed more than eight characters before the end of the line', breaks='the cursor on the screen stops one column short',
  demo=r"""
#include <sstream>
#include <cli/detail/terminal.h>
#include <cli/detail/inputdevice.h>
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using namespace cli::detail;
int main() {
    std::ostringstream o; Terminal<TelnetScreen> t(o);
    t.SetLine("0123456789ab"); t.Keypressed(std::make_pair(KeyType::home, ' ')); o.str("");
    t.Keypressed(std::make_pair(KeyType::end, ' '));
    return o.str().find("0123456789ab") != std::string::npos ? 0 : 1;
}"""),
 dict(id='c13-trim-blank', property='C13', edits=[(C, 'currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));', "currentLine.erase(0, currentLine.find_first_not_of(' ') == std::string::npos ? 0 : currentLine.find_first_not_of(' '));")],
  needs='a line to complete that starts with a tab or consists of blanks only', breaks='nothing is proposed',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); root->Insert("foo", [](std::ostream&) {});
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10);
    return s.GetCompletions("\tfo") == std::vector<std::string>{"foo"} && s.GetCompletions("  ").size() == s.GetCompletions("").size() ? 0 : 1;
}"""),
 dict(id='c14-list', property='C14', edits=[(PR, 'if (commonPrefix.size() > line.size())', 'if (commonPrefix.size() >= line.size())')],
  needs='Tab pressed when the line already is the longest common prefix of the candidates', breaks='the candidates are not listed',
  demo=SESSION + r"""
#include <cli/detail/commandprocessor.h>
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
struct Q : Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct In : detail::InputDevice { In(Scheduler& s) : InputDevice(s) {} void ActivateInput() override {} void DeactivateInput() override {} void Key(detail::KeyType k, char c) { Notify(std::make_pair(k, c)); } };
int main() {
    auto root = std::make_unique<Menu>("cli"); root->Insert("foobar", [](std::ostream&) {}); root->Insert("foobaz", [](std::ostream&) {});
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10); Q q; In in(q); detail::CommandProcessor<detail::TelnetScreen> p(s, in);
    for (char x: std::string("fooba")) in.Key(detail::KeyType::ascii, x);
    o.str(""); in.Key(detail::KeyType::ascii, '\t');
    return o.str().find("foobar") != std::string::npos && o.str().find("foobaz") != std::string::npos ? 0 : 1;
}"""),
 dict(id='c15-nop', property='C15', edits=[(G, """            case GoAhead:
            case NOP:
                state = State::data;
                break;""", """            case GoAhead:
            case NOP:
                break;""")],
  needs='IAC WILL IAC NOP (a command inside a negotiation that was left open), then a letter', breaks='the letter is taken as the option of the negotiation',
  demo=TEL + r"""
int main() { T t; t.Rx(std::string("\xff\xfb\xff\xf1" "a", 5)); return t.data == "a" ? 0 : 1; }"""),
 dict(id='c15-long-output', property='C15', edits=[(SV, '        Send(Encode(std::string(s, s+n)));', '        Send(Encode(std::string(s, s+(n > max_length ? max_length : n))));')],
  needs='a handler that writes more than 1024 characters at once', breaks='the rest of the text is lost',
  demo=TEL + r"""
int main() { T t; std::string big(3000, 'x'); t.Out() << big << std::flush; return t.sent == big ? 0 : 1; }"""),
 dict(id='c16-esc-esc', property='C16', edits=[(G, """                    step = Step::_1;
                    Notify(std::make_pair(KeyType::ignored,' '));
                    break; // unknown""", """                    if (c != 27) step = Step::_1;
                    Notify(std::make_pair(KeyType::ignored,' '));
                    break; // unknown""")],
  needs='two escape characters in a row on a telnet connection', breaks='the following [A is taken as an arrow key instead of being typed',
  demo=SESSION + r"""
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using namespace cli::detail;
static boost::asio::io_context io;
struct Now : Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct Tel : CliTelnetSession {
    Tel(Scheduler& s, Cli& c) : CliTelnetSession(s, boost::asio::ip::tcp::socket(io), c, nullptr, 10) { Register([this](std::pair<KeyType, char> k) { if (k.first == KeyType::ascii) got += k.second; else if (k.first != KeyType::ignored) got += '?'; }); }
    void Rx(const std::string& s) { OnDataReceived(s); } void Send(const std::string&) override {}
    std::string got;
};
int main() { Now n; Cli c(std::make_unique<Menu>("cli")); Tel t(n, c); t.Rx("\x1b\x1b[A"); return t.got == "[A" ? 0 : 1; }"""),
 dict(id='c17-exit-late', property='C17', edits=[(C, '            exit = true; // prevent the prompt to be shown\n', '\n'), (C, '            auto cmds = history.GetCommands();\n', '            exit = true; // prevent the prompt to be shown\n            auto cmds = history.GetCommands();\n')],
  needs='an exit action that asks for the prompt or feeds another line', breaks='the prompt is shown after the exit',
  demo=SESSION + r"""
int main() {
    Cli c(std::make_unique<Menu>("cli")); std::ostringstream o; CliSession s(c, o, 10); int n = 0;
    s.ExitAction([&](std::ostream&) { ++n; s.Prompt(); });
    o.str(""); s.Exit(); return n == 1 && o.str().find("cli>") == std::string::npos ? 0 : 1;
}"""),
 dict(id='c18-exit-dtor', property='C18', edits=[(C, '        coutPtr->UnRegister(out);', '        if (!exit) coutPtr->UnRegister(out);')],
  needs='a session that ended with exit before it was destroyed, then a write to Cli::cout()', breaks='the stream of the dead session still gets the text',
  demo=SESSION + r"""
int main() {
    Cli c(std::make_unique<Menu>("cli")); std::ostringstream o;
    { CliSession s(c, o, 10); s.Exit(); }
    o.str(""); Cli::cout() << "hello" << std::flush; return o.str().empty() ? 0 : 1;
}"""),
 dict(id='c18-thread', property='C18', edits=[(C, "static std::shared_ptr<OutStream> s = ", "static thread_local std::shared_ptr<OutStream> s = ")],
  needs='a thread that writes to Cli::cout() other than the one that opened the sessions', breaks='its text reaches no session',
  demo=SESSION + r"""
#include <thread>
int main() {
    Cli c(std::make_unique<Menu>("cli")); std::ostringstream o; CliSession s(c, o, 10);
    std::thread([] { Cli::cout() << "hello" << std::flush; }).join(); return o.str() == "hello" ? 0 : 1;
}"""),
 dict(id='c20-last-line', property='C20', edits=[(FI, """            if (in.eof())
                Exit();""", """            if (in.eof() && line.empty())
                Exit();"""), (FI, """            else
                Feed(line);""", """            else
            {
                Feed(line);
                if (in.eof()) Exit();
            }""")],
  needs='an input whose last line has no newline at its end', breaks='the unterminated last line is executed',
  demo=SESSION + r"""
#include <cli/clifilesession.h>
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0; root->Insert("a", [&](std::ostream&) { ++n; });
    Cli c(std::move(root)); std::istringstream i("a\na"); std::ostringstream o; CliFileSession s(c, i, o); s.Start();
    return n == %d ? 0 : 1;
}""" % 1),
 dict(id='c21-desc', property='C21', edits=[(C, """            if (parameterDesc.empty())
                PrintDesc<Args...>""", """            if (parameterDesc.size() < sizeof...(Args))
                PrintDesc<Args...>""")],
  needs='fewer parameter descriptions than parameters', breaks='the type names are shown in front of the given descriptions',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); root->Insert("add", [](std::ostream&, int, int) {}, "help", {"first"});
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10); s.Feed("help");
    return o.str().find("add <first>") != std::string::npos ? 0 : 1;
}"""),
 # --- second round
 dict(id='c04-submenu-scan', property='C04', edits=[(C, 'return (parent && parent->ExecParent(subCmdLine, session));', 'return (parent && parent->ScanCmds(subCmdLine, session));')],
  needs='a line that names a submenu and then an entry only its parent has', breaks='"sub hello" runs the hello of the parent menu',
  demo=SESSION + r"""
int main() {
    int n = 0; auto root = std::make_unique<Menu>("cli"); root->Insert("hello", [&](std::ostream&) { ++n; });
    auto sub = std::make_unique<Menu>("sub"); sub->Insert("own", [](std::ostream&) {}); root->Insert(std::move(sub));
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10); s.Feed("sub hello"); return n == 0 ? 0 : 1;
}"""),
 dict(id='c07-id-wrap', property='C07', edits=[(H, '++idOfOldest;', 'idOfOldest = (idOfOldest + 1) % 1000;')],
  needs='a history that lost its thousandth line', breaks='the numbers of the entries start again from zero',
  demo=r'''
#include <stdexcept>
#include <sstream>
#include <cli/detail/history.h>
int main() {
    cli::detail::History h(2); for (int i = 0; i < 1100; ++i) h.NewCommand("l" + std::to_string(i));
    return h.At(1099) == "l1099" ? 0 : 1;
}'''),
 dict(id='c09-ushort', property='C09', edits=[(C, '[this](std::ostream&, unsigned cmdIndex){ ExecFromHistory(cmdIndex); }', '[this](std::ostream&, unsigned short cmdIndex){ ExecFromHistory(cmdIndex); }')],
  needs='an entry with a number beyond 65535', breaks='"!65540" is refused although the history lists it',
  demo=SESSION + r"""
int main() {
    int n = 0; auto root = std::make_unique<Menu>("cli"); root->Insert("a", [&](std::ostream&) { ++n; }); root->Insert("b", [](std::ostream&) {});
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 4);
    for (int i = 0; i < 65600; ++i) s.Feed(i % 2 ? "a" : "b");
    int before = n; s.Feed("!65599"); return n == before + 1 ? 0 : 1;
}"""),
 dict(id='c10-file-empty', property='C10', edits=[(FH, """            while (std::getline(in, line))
                commands.push_back(line);""", """            while (std::getline(in, line))
                if (commands.empty() || commands.back() != line)
                    commands.push_back(line);""")],
  needs='two sessions, the second starting with the last line of the first', breaks='a line of the history is lost',
  demo=r'''
#include <cli/filehistorystorage.h>
int main() {
    { cli::FileHistoryStorage f("hist", 10); f.Store({"a", "b"}); } { cli::FileHistoryStorage f("hist", 10); f.Store({"b", "c"}); }
    cli::FileHistoryStorage f("hist", 10); return f.Commands() == std::vector<std::string>{"a", "b", "b", "c"} ? 0 : 1;
}'''),
 dict(id='c12-canc-color', property='C12', edits=[(T, """                // remove last char
                out << ' ';
                // go back to the original position
                out << std::string(currentLine.size() - position, '\\b') << std::flush;
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);""", """                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);
                // remove last char
                out << ' ';
                // go back to the original position
                out << std::string(currentLine.size() - position, '\\b') << std::flush;""")],
  needs='the delete key with the cursor inside the line', breaks='the cursor on the screen is one column to the right',
  demo=SESSION + r"""
#include <cli/detail/terminal.h>
using namespace cli::detail;
struct S { static void Clear(std::ostream&) {} };
int main() {
    std::ostringstream o; Terminal<S> t(o); t.SetLine("abc"); t.Keypressed({KeyType::home, ' '}); o.str(""); t.Keypressed({KeyType::canc, ' '});
    return o.str() == "bc \b\b\b" ? 0 : 1;
}"""),
 dict(id='c13-parent-disabled', property='C13', edits=[(C, """            auto result = cli::GetCompletions(cmds, currentLine);
            if (parent != nullptr)""", """            auto result = cli::GetCompletions(cmds, currentLine);
            if (parent != nullptr && result.empty())""")],
  needs='a text that continues both to an entry of the current menu and to its parent', breaks='the completions leading to the parent menu are not offered',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("main"); auto sub = std::make_unique<Menu>("sub"); sub->Insert("map", [](std::ostream&) {}); root->Insert(std::move(sub));
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o, 10); s.Feed("sub");
    auto v = s.GetCompletions("ma"); return std::find(v.begin(), v.end(), "main") != v.end() && std::find(v.begin(), v.end(), "map") != v.end() ? 0 : 1;
}"""),
 dict(id='c19-notify-one', property='C19', edits=[(L, """        tasks.push(f);
        cv.notify_all();""", """        tasks.push(f);
        if (tasks.size() == 1) // somebody may be waiting
            cv.notify_one();""")],
  needs='two threads blocked in ExecOne and two tasks posted before the first wakes up', breaks='the second thread sleeps although a task is waiting',
  demo=r'''
#include <cli/loopscheduler.h>
#include <thread>
#include <atomic>
#include <chrono>
using namespace std::chrono;
int main() {
    for (int k = 0; k < 150; ++k) {
        cli::LoopScheduler s; std::atomic<int> in{0}, done{0}; std::atomic<bool> bad{false};
        auto f = [&] { ++in; s.ExecOne(); ++done; };
        std::thread a(f), b(f); while (in != 2) std::this_thread::yield(); std::this_thread::sleep_for(milliseconds(2));
        std::atomic<int> met{0};
        auto t = [&] { ++met; auto end = steady_clock::now() + seconds(3); while (met < 2 && steady_clock::now() < end) std::this_thread::yield(); if (met < 2) bad = true; };
        s.Post(t); s.Post(t);
        { auto end = steady_clock::now() + seconds(5); while (done < 2 && steady_clock::now() < end) std::this_thread::sleep_for(microseconds(50)); }
        if (done < 2) bad = true;
        s.Stop(); a.join(); b.join(); if (bad) return 1;
    }
    return 0;
}'''),
 dict(id='c19-stop-drain', property='C19', edits=[(L, '            if (!running || tasks.empty())\n', '            if (tasks.empty())\n')],
  needs='PollOne after a stop with tasks still queued', breaks='a task is executed after the stop',
  demo=r'''
#include <cli/loopscheduler.h>
int main() { cli::LoopScheduler s; int n = 0; s.Post([&] { s.Stop(); }); s.Post([&] { ++n; }); s.PollOne(); bool r = s.PollOne(); return n == 0 && !r ? 0 : 1; }'''),
 dict(id='c22-stop-order', property='C22', edits=[(K, """        if (FD_ISSET(readPipe, &rfds)) // stop called
        {
            close(readPipe);
            throw std::runtime_error("InputSource stop");
        }

        if (FD_ISSET(STDIN_FILENO, &rfds)) // char from stdinput
        {
            return;
        }
""", """        if (FD_ISSET(STDIN_FILENO, &rfds)) // char from stdinput
        {
            return;
        }

        if (FD_ISSET(readPipe, &rfds)) // stop called
        {
            close(readPipe);
            throw std::runtime_error("InputSource stop");
        }
""")],
  needs='the keyboard is destroyed when the standard input is at its end', breaks='the destructor never returns',
  demo=r'''
#include <cli/detail/linuxkeyboard.h>
#include <cli/scheduler.h>
#include <memory>
#include <unistd.h>
struct Never : cli::Scheduler { void Post(const std::function<void()>&) override {} };
int main() {
    int p[2]; if (pipe(p)) return 1; close(p[1]); dup2(p[0], 0);
    Never s; { auto k = std::make_unique<cli::detail::LinuxKeyboard>(s); k->Register([](std::pair<cli::detail::KeyType, char>) {}); usleep(100000); alarm(5); }
    return 0;
}'''),
 dict(id='c23-exit-once', property='C23', edits=[(G, """    void ExitAction( std::function< void(std::ostream&)> action )
    {
        exitAction = action;
    }
    std::shared_ptr""", """    void ExitAction( std::function< void(std::ostream&)> action )
    {
        if (!exitAction) exitAction = action;
    }
    std::shared_ptr""")],
  needs='the exit action of the server is configured a second time', breaks='later sessions still run the first one',
  demo=SESSION + r"""
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using boost::asio::ip::tcp;
int main() {
    Cli c(std::make_unique<Menu>("cli")); BoostAsioScheduler s; std::unique_ptr<BoostAsioCliTelnetServer> srv; unsigned short port = 0;
    for (int t = 0; t < 20 && !srv; ++t) {
        { tcp::acceptor a(s.AsioContext(), tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); port = a.local_endpoint().port(); }
        try { srv = std::make_unique<BoostAsioCliTelnetServer>(c, s, "127.0.0.1", port, 5); } catch (const std::exception&) {}
    }
    if (!srv) return 0;
    int first = 0, second = 0; srv->ExitAction([&](std::ostream&) { ++first; }); srv->ExitAction([&](std::ostream&) { ++second; });
    boost::asio::io_context io; tcp::socket k(io); k.connect({boost::asio::ip::make_address("127.0.0.1"), port}); boost::asio::write(k, boost::asio::buffer(std::string("exit\r\n")));
    for (int i = 0; i < 400 && !first && !second; ++i) { s.PollOne(); usleep(5000); }
    return first == 0 && second == 1 ? 0 : 1;
}"""),
 dict(id='c23-early-data', property='C23', edits=[(SV, 'if (!ec) CreateSession', 'if (!ec && socket.available() == 0) CreateSession')],
  needs='a client that sends before the server gets to accept it', breaks='the connection gets no session',
  demo=SESSION + r"""
#include <boost/asio.hpp>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using boost::asio::ip::tcp;
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0; root->Insert("hi", [&](std::ostream&) { ++n; });
    Cli c(std::move(root)); BoostAsioScheduler s; std::unique_ptr<BoostAsioCliTelnetServer> srv; unsigned short port = 0;
    for (int t = 0; t < 20 && !srv; ++t) {
        { tcp::acceptor a(s.AsioContext(), tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); port = a.local_endpoint().port(); }
        try { srv = std::make_unique<BoostAsioCliTelnetServer>(c, s, "127.0.0.1", port, 5); } catch (const std::exception&) {}
    }
    if (!srv) return 0;
    boost::asio::io_context io; tcp::socket k(io); k.connect({boost::asio::ip::make_address("127.0.0.1"), port}); boost::asio::write(k, boost::asio::buffer(std::string("hi\r\n"))); usleep(50000);
    for (int i = 0; i < 200 && !n; ++i) { s.PollOne(); usleep(5000); }
    return n == 1 ? 0 : 1;
}"""),
 dict(id='c20-hoist', property='C20', edits=[(FI, """        while(!Exited())
        {
            Prompt();
            std::string line;""", """        std::string line;
        while(!Exited())
        {
            Prompt();""")],
  needs='a command that leaves the input stream in a fail state (not at its end) while the session reads from it', breaks='the line just executed is executed again',
  demo=SESSION + r"""
#include <cli/clifilesession.h>
#include <unistd.h>
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0;
    std::istringstream in("hit\nhit\nexit\n"); std::ostringstream out;
    CliFileSession* ps = nullptr;
    root->Insert("hit", [&](std::ostream&) { if (++n == 1) in.setstate(std::ios::failbit); else { in.clear(); ps->Exit(); } });
    Cli c(std::move(root));
    CliFileSession s(c, in, out); ps = &s;
    alarm(3); s.Start(); return n == 1 ? 0 : 1;
}"""),
 dict(id='c02-float-range', property='C02', edits=[(F, """        result = std::stod(s, &sz);
    } catch (const std::exception&) {""", """        result = std::stod(s, &sz);
    } catch (const std::out_of_range&) {
        return result;
    } catch (const std::exception&) {""")],
  needs='a double parameter too large or too small for the type', breaks='the command runs with 0 instead of being rejected',
  demo=SESSION + r"""
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0; root->Insert("d", [&](std::ostream&, double) { ++n; });
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o);
    s.Feed("d 1e999"); s.Feed("d 1.5"); s.Feed("d -1e-999");
    return n == 1 ? 0 : 1;
}"""),
 dict(id='c02-user-rest', property='C02', edits=[(F, "!(interpreter >> std::ws).eof())", "(interpreter.peek() != EOF && !std::isspace(interpreter.peek())))")],
  needs='a parameter of a user type followed, inside the quotes, by white space and more text', breaks='the rest is dropped silently',
  demo=SESSION + r"""
struct U { int v; }; 
std::istream& operator>>(std::istream& i, U& u) { return i >> u.v; }
namespace cli { template <> struct TypeDesc<U> { static const char* Name() { return "<u>"; } }; }
int main() {
    auto root = std::make_unique<Menu>("cli"); int n = 0; root->Insert("u", [&](std::ostream&, U) { ++n; });
    Cli c(std::move(root)); std::ostringstream o; CliSession s(c, o);
    s.Feed("u '4 '"); s.Feed("u '4 x'"); s.Feed("u 4");
    return n == 2 ? 0 : 1;
}"""),
]
