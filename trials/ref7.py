TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
P, X, FS, I_, SP, FR = 'detail/commandprocessor.h', 'detail/commonprefix.h', 'clifilesession.h', 'detail/inputdevice.h', 'detail/split.h', 'detail/fromstring.h'
S, G, T, A = 'detail/server.h', 'detail/genericasioscheduler.h', 'detail/genericasioremotecli.h', 'detail/genericcliasyncsession.h'
# ---- command processor
TABBODY = '''                auto line = terminal.GetLine();
                auto completions = session.GetCompletions(line);

                if (completions.empty())
                    break;
                if (completions.size() == 1)
                {
                    terminal.SetLine(completions[0]+' ');
                    break;
                }

                auto commonPrefix = CommonPrefix(completions);
                if (commonPrefix.size() > line.size())
                {
                    terminal.SetLine(commonPrefix);
                    break;
                }
                session.OutStream() << '\\n';
                std::string items;
                std::for_each( completions.begin(), completions.end(), [&items](auto& cmd){ items += '\\t' + cmd; } );
                session.OutStream() << items << '\\n';
                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine( line );
                break;
            }'''
R('v-p-complete', 'C14', P, (TABBODY, '''                Complete(terminal.GetLine());
                break;
            }'''), ('    CliSession& session;\n    Terminal', '''    void Complete(const std::string& line)
    {
        const auto completions = session.GetCompletions(line);
        if (completions.empty())
            return;
        if (completions.size() == 1)
        {
            terminal.SetLine(completions.front() + ' ');
            return;
        }
        const auto prefix = CommonPrefix(completions);
        if (prefix.size() > line.size())
        {
            terminal.SetLine(prefix);
            return;
        }
        auto& out = session.OutStream();
        out << '\\n';
        for (const auto& cmd : completions)
            out << '\\t' << cmd;
        out << '\\n';
        Redraw(line);
    }

    void Redraw(const std::string& line)
    {
        session.Prompt();
        terminal.ResetCursor();
        terminal.SetLine(line);
    }

    CliSession& session;
    Terminal'''), ('''                terminal.Clear();
                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine(currentLine);''', '''                terminal.Clear();
                Redraw(currentLine);'''))
R('v-p-accum', 'C14', P, ("std::for_each( completions.begin(), completions.end(), [&items](auto& cmd){ items += '\\t' + cmd; } );", "for (std::size_t i = 0; i < completions.size(); ++i)\n                {\n                    items += '\\t';\n                    items += completions[i];\n                }"))
R('v-p-acc2', 'C14', P, ("std::for_each( completions.begin(), completions.end(), [&items](auto& cmd){ items += '\\t' + cmd; } );", "for (const auto& cmd : completions)\n                    items.append(1, '\\t').append(cmd);"))
R('v-p-switchif', 'C14', P, ('''            case Symbol::nothing:
            {
                break;
            }
''', ''), ("        switch (s.first)\n        {\n", "        const auto symbol = s.first;\n        if (symbol == Symbol::nothing)\n            return;\n        switch (symbol)\n        {\n            case Symbol::nothing: break;\n"))
R('v-p-exec', 'C14', P, ('''                kb.DeactivateInput();
                session.Feed(s.second);
                session.Prompt();
                kb.ActivateInput();
                break;''', '''                Execute(s.second);
                break;'''), ('    CliSession& session;\n    Terminal', '''    void Execute(const std::string& line)
    {
        kb.DeactivateInput();
        session.Feed(line);
        session.Prompt();
        kb.ActivateInput();
    }

    CliSession& session;
    Terminal'''))
R('v-p-up', 'C14', P, ('''                auto line = terminal.GetLine();
                terminal.SetLine(session.PreviousCmd(line));''', '''                const std::string previous = session.PreviousCmd(terminal.GetLine());
                terminal.SetLine(previous);'''))
R('v-p-elseif', 'C14', P, ('''                if (completions.size() == 1)
                {
                    terminal.SetLine(completions[0]+' ');
                    break;
                }

                auto commonPrefix = CommonPrefix(completions);
                if (commonPrefix.size() > line.size())
                {
                    terminal.SetLine(commonPrefix);
                    break;
                }
''', '''                std::string extended;
                if (completions.size() == 1)
                    extended = completions[0] + ' ';
                else
                    extended = CommonPrefix(completions);
                if (completions.size() == 1 || extended.size() > line.size())
                {
                    terminal.SetLine(extended);
                    break;
                }
'''))
# ---- common prefix
LOOP = '''    for (std::size_t i = 0; i < smin->size(); ++i)
    {
        // check if i-th element is equal in each input string
        const char c = (*smin)[i];
        for (auto& x: v)
            if (x[i] != c) return prefix;
        prefix += c;
    }

    return prefix;'''
R('v-x-allof', 'C14', X, (LOOP, '''    for (std::size_t i = 0; i < smin->size(); ++i)
    {
        const char c = (*smin)[i];
        const bool same = std::all_of(v.begin(), v.end(), [i, c](const std::string& x){ return x[i] == c; });
        if (!same) break;
        prefix += c;
    }

    return prefix;'''))
R('v-x-len', 'C14', X, (LOOP, '''    std::size_t len = 0;
    for (; len < smin->size(); ++len)
    {
        const char c = (*smin)[len];
        if (std::any_of(v.begin(), v.end(), [len, c](const std::string& x){ return x[len] != c; }))
            break;
    }
    return smin->substr(0, len);'''), ("    std::string prefix;\n", ""))
R('v-x-mismatch', 'C14', X, ('''    std::string prefix;

    // find the shorter string
    auto smin = std::min_element(v.begin(), v.end(),
                [] (const std::string& s1, const std::string& s2)
                {
                    return s1.size() < s2.size();
                });

''' + LOOP, '''    std::string prefix = v.front();
    for (const auto& s : v)
    {
        std::size_t n = 0;
        while (n < prefix.size() && n < s.size() && prefix[n] == s[n])
            ++n;
        prefix.resize(n);
    }
    return prefix;'''))
# ---- file session
R('v-f-for', 'C20 C17', FS, ('''        while(!Exited())
        {
            Prompt();
            std::string line;
            if (!in.good())
                Exit();
            std::getline(in, line);
            if (in.eof())
                Exit();
            else
                Feed(line);
        }''', '''        for (; !Exited(); )
        {
            Prompt();
            std::string line;
            if (!in.good())
                Exit();
            std::getline(in, line);
            if (!in.eof())
                Feed(line);
            else
                Exit();
        }'''))
R('v-f-step', 'C20 C17', FS, ('''            Prompt();
            std::string line;
            if (!in.good())
                Exit();
            std::getline(in, line);
            if (in.eof())
                Exit();
            else
                Feed(line);
        }
    }
''', '''            Prompt();
            ProcessLine();
        }
    }
'''), ("private:\n    std::istream& in;", '''private:
    void ProcessLine()
    {
        std::string line;
        if (!in.good())
            Exit();
        std::getline(in, line);
        if (in.eof())
        {
            Exit();
            return;
        }
        Feed(line);
    }

    std::istream& in;'''))
R('v-f-ctor', 'C20 C17', FS, ('''        if (!_in.good()) throw std::invalid_argument("istream invalid");
        if (!_out.good()) throw std::invalid_argument("ostream invalid");''', '''        CheckStream(_in, "istream invalid");
        CheckStream(_out, "ostream invalid");'''), ("private:\n    std::istream& in;", '''private:
    static void CheckStream(const std::ios& s, const char* error)
    {
        if (!s.good())
            throw std::invalid_argument(error);
    }

    std::istream& in;'''))
# ---- input device
R('v-i-handle', 'C14', I_, ("scheduler.Post([this,k](){ if (handler) handler(k); });", "scheduler.Post([this,k](){ Handle(k); });"), ("private:\n\n    Scheduler& scheduler;", "private:\n\n    void Handle(const std::pair<KeyType,char>& k) const\n    {\n        if (!handler)\n            return;\n        handler(k);\n    }\n\n    Scheduler& scheduler;"))
R('v-i-task', 'C14', I_, ("scheduler.Post([this,k](){ if (handler) handler(k); });", "const std::function<void()> task = [this,k]() { if (handler) handler(k); };\n        scheduler.Post(task);"))
# ---- split
R('v-s-isblank', 'C01', SP, ("    void EvalSpace(char c)\n    {\n        if (c == ' ' || c == '\\t' || c == '\\n')", "    static bool IsSpace(char c) { return c == ' ' || c == '\\t' || c == '\\n'; }\n    static bool IsQuote(char c) { return c == '\"' || c == '\\''; }\n\n    void EvalSpace(char c)\n    {\n        if (IsSpace(c))"),
  ("    void EvalWord(char c)\n    {\n        if (c == ' ' || c == '\\t' || c == '\\n')", "    void EvalWord(char c)\n    {\n        if (IsSpace(c))"), ("    void EvalSentence(char c)\n    {\n        if (c == '\"' || c == '\\'')", "    void EvalSentence(char c)\n    {\n        if (IsQuote(c))"))
R('v-s-switch', 'C01', SP, ('''        if (c == ' ' || c == '\\t' || c == '\\n')
        {
            state = State::space;
        }
        else if (c == '!')
        {
            splitResult.emplace_back(1, c);
            state = State::space;
        }
        else if (c == '"' || c == '\\'')
        {
            NewSentence(c);
        }
        else if (c == '\\\\')
        {
            prev_state = state;
            state = State::escape;
        }      
        else
        {
            assert(!splitResult.empty());
            splitResult.back() += c;
        }''', '''        switch (c)
        {
            case ' ':
            case '\\t':
            case '\\n':
                state = State::space;
                break;
            case '!':
                splitResult.push_back(std::string(1, c));
                state = State::space;
                break;
            case '"':
            case '\\'':
                NewSentence(c);
                break;
            case '\\\\':
                BeginEscape();
                break;
            default:
                Append(c);
        }'''), ("    void NewSentence(char c)\n", '''    void BeginEscape()
    {
        prev_state = state;
        state = State::escape;
    }

    void Append(char c)
    {
        assert(!splitResult.empty());
        splitResult.back().push_back(c);
    }

    void NewSentence(char c)
'''))
R('v-s-quotechar', 'C01', SP, ('''            auto new_type = c == '"' ? SentenceType::double_quote : SentenceType::quote;
            if (new_type == sentence_type)
                state = State::space;''', '''            const char open = sentence_type == SentenceType::double_quote ? '"' : '\\'';
            if (c == open)
                state = State::space;'''))
R('v-s-escape', 'C01', SP, ('''        if (c != '"' && c != '\\'' && c != '\\\\')
            splitResult.back() += "\\\\";
        splitResult.back() += c;
        state = prev_state;''', '''        auto& word = splitResult.back();
        const bool special = c == '"' || c == '\\'' || c == '\\\\';
        if (!special)
            word += '\\\\';
        word += c;
        state = prev_state;'''))
R('v-s-removeloop', 'C01', SP, ('''        splitResult.erase(
            std::remove_if(
                splitResult.begin(),
                splitResult.end(),
                [](const std::string& s){ return s.empty(); }
            ),
            splitResult.end()
        );''', '''        for (auto it = splitResult.begin(); it != splitResult.end(); )
        {
            if (it->empty())
                it = splitResult.erase(it);
            else
                ++it;
        }'''))
R('v-s-move', 'C01', SP, ("        RemoveEmptyEntries();\n        splitResult.swap(strs); // puts the result back in strs", "        RemoveEmptyEntries();\n        strs = std::move(splitResult);"))
R('v-s-foreach', 'C01', SP, ("        for (char c: input)\n            Eval(c);", "        for (std::string::const_iterator it = input.begin(); it != input.end(); ++it)\n            Eval(*it);"))
R('v-s-copyif', 'C01', SP, ('''        splitResult.erase(
            std::remove_if(
                splitResult.begin(),
                splitResult.end(),
                [](const std::string& s){ return s.empty(); }
            ),
            splitResult.end()
        );''', '''        std::vector<std::string> words;
        for (auto& s : splitResult)
            if (!s.empty())
                words.push_back(std::move(s));
        splitResult.swap(words);'''))
# ---- from_string
R('v-c-digit', 'C02', FR, ('''        if (!std::isdigit(c))
            throw bad_conversion();
        const T digit = static_cast<T>( c - '0' );''', '''        if (c < '0' || c > '9')
            throw bad_conversion();
        const T digit = static_cast<T>( c - '0' );'''))
R('v-c-limit', 'C02', FR, ('''        const T tmp = (result * 10) + digit;
        if (result != ((tmp-digit)/10) || (tmp < result))
            throw bad_conversion();
        result = tmp;''', '''        if (result > (std::numeric_limits<T>::max() - digit) / 10)
            throw bad_conversion();
        result = static_cast<T>(result * 10 + digit);'''))
R('v-c-limit2', 'C02', FR, ('''        const T tmp = (result * 10) + digit;
        if (result != ((tmp-digit)/10) || (tmp < result))
            throw bad_conversion();
        result = tmp;''', '''        constexpr T max = std::numeric_limits<T>::max();
        if (result > max / 10 || (result == max / 10 && digit > max % 10))
            throw bad_conversion();
        result = static_cast<T>(result * 10 + digit);'''))
R('v-c-erase', 'C02', FR, ('''    if (s[0] == '+')
    {
        s = s.substr(1);
    }
    return unsigned_digits_from_string<T>(s);''', '''    if (s.front() == '+')
        s.erase(0, 1);
    return unsigned_digits_from_string<T>(s);'''))
R('v-c-neg', 'C02', FR, ('''    if (s[0] == '-')
    {
        s = s.substr(1);''', '''    const bool negative = s[0] == '-';
    if (negative)
    {
        s.erase(s.begin());'''), ('''        if ( val > maxAbs )
            throw bad_conversion();
        if ( val == 0 )
            return 0;
        return static_cast<T>( - static_cast<T>(val - 1) - 1 );''', '''        if ( val > maxAbs )
            throw bad_conversion();
        return val == 0 ? T{0} : static_cast<T>( - static_cast<T>(val - 1) - 1 );'''))
R('v-c-min', 'C02', FR, ('''        if ( val > maxAbs )
            throw bad_conversion();
        if ( val == 0 )
            return 0;
        return static_cast<T>( - static_cast<T>(val - 1) - 1 );''', '''        if ( val > maxAbs )
            throw bad_conversion();
        if ( val == maxAbs )
            return std::numeric_limits<T>::min();
        return static_cast<T>( - static_cast<T>(val) );'''))
R('v-c-index', 'C02', FR, ("    for (char c: s)\n    {\n        if (!std::isdigit(c))", "    for (std::size_t i = 0; i < s.size(); ++i)\n    {\n        const char c = s[i];\n        if (!std::isdigit(c))"))
R('v-c-allof', 'C02', FR, ('''    T result = 0;
    for (char c: s)
    {
        if (!std::isdigit(c))
            throw bad_conversion();
''', '''    if (!std::all_of(s.begin(), s.end(), [](unsigned char c){ return std::isdigit(c) != 0; }))
        throw bad_conversion();
    T result = 0;
    for (char c: s)
    {
'''))
R('v-c-boolswitch', 'C02', FR, ('''    if (value == 1) return true;
    else if (value == 0) return false;
    throw bad_conversion();            ''', '''    if (value != 0 && value != 1)
        throw bad_conversion();
    return value == 1;'''))
R('v-c-char', 'C02', FR, ("    if (s.size() != 1) throw bad_conversion();\n    return s[0];", "    if (s.length() == 1)\n        return s.front();\n    throw bad_conversion();"))
# ---- telnet
R('v-t-consume', 'C15', T, ('''        if (escape)
        {
            if (c == IAC)
                Data(c);
            else
                Command(c);
            escape = false;
        }
        else
        {
            if (c == IAC)
                escape = true;
            else
                Data(c);
        }''', '''        const bool iac = c == IAC;
        if (!escape && iac)
        {
            escape = true;
            return;
        }
        if (escape && !iac)
            Command(c);
        else
            Data(c);
        escape = false;'''))
R('v-t-data', 'C15', T, ('''            case State::wait_will:
                RxWill(c);
                state = State::data;
                break;
            case State::wait_wont:
                RxWont(c);
                state = State::data;
                break;
            case State::wait_do:
                RxDo(c);
                state = State::data;
                break;
            case State::wait_dont:
                RxDont(c);
                state = State::data;
                break;''', '''            case State::wait_will:
                RxWill(c);
                break;
            case State::wait_wont:
                RxWont(c);
                break;
            case State::wait_do:
                RxDo(c);
                break;
            case State::wait_dont:
                RxDont(c);
                break;'''), ('''            case State::sub:
                RxSub(c);
                break;
''', '''            case State::sub:
                RxSub(c);
                return;
'''), ('''            case State::data:
                Output(c);
                break;
''', '''            case State::data:
                Output(c);
                return;
'''), ('''    void Command(char c)
    {
/*''', '''    void Command(char c)
    {
        // clang-format off
/*'''), ('''                RxDont(c);
                break;
        }
    }
''', '''                RxDont(c);
                break;
        }
        state = State::data;
    }
''')) if False else None
R('v-t-answer', 'C15', T, ('''        std::string answer("\\x0FF\\x000\\x000", 3);
        answer[1] = action;
        answer[2] = op;
        Send(answer);''', '''        const char answer[] = { static_cast<char>(IAC), action, op };
        Send(std::string(answer, sizeof(answer)));'''))
R('v-t-answer2', 'C15', T, ('''        std::string answer("\\x0FF\\x000\\x000", 3);
        answer[1] = action;
        answer[2] = op;
        Send(answer);''', '''        std::string answer;
        answer += static_cast<char>(IAC);
        answer += action;
        answer += op;
        Send(answer);'''))
R('v-t-encode', 'C15', T, ('''        std::string result;
        for (char c: _data)
        {
            if (c == '\\n') result += '\\r';
            result += c;
        }
        return result;''', '''        std::string result;
        result.reserve(_data.size());
        for (const char c: _data)
        {
            if (c == '\\n')
                result.append("\\r\\n");
            else
                result.push_back(c);
        }
        return result;'''))
R('v-t-connect', 'C15 C17', T, ('''        static const std::string iacWillEcho{ "\\x0FF\\x0FB\\x001", 3 };
        this -> OutStream() << iacWillEcho << std::flush;''', '''        static const std::string iacWillEcho{ "\\x0FF\\x0FB\\x001", 3 };
        auto& out = this -> OutStream();
        out << iacWillEcho;
        out.flush();'''))
R('v-t-key', 'C16', T, ('''                    case 65: step = Step::_1; Notify(std::make_pair(KeyType::up,' ')); break;
                    case 66: step = Step::_1; Notify(std::make_pair(KeyType::down,' ')); break;
                    case 68: step = Step::_1; Notify(std::make_pair(KeyType::left,' ')); break;
                    case 67: step = Step::_1; Notify(std::make_pair(KeyType::right,' ')); break;
                    case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                    case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;''', '''                    case 'A': Done(KeyType::up); break;
                    case 'B': Done(KeyType::down); break;
                    case 'C': Done(KeyType::right); break;
                    case 'D': Done(KeyType::left); break;
                    case 'F': Done(KeyType::end); break;
                    case 'H': Done(KeyType::home); break;'''), ('''                    step = Step::_1;
                    Notify(std::make_pair(KeyType::canc,' '));''', '''                    Done(KeyType::canc);'''), ('''    void Unknown(char c)
    {''', '''    void Done(KeyType k)
    {
        step = Step::_1;
        Notify(std::make_pair(k, ' '));
    }

    void Unknown(char c)
    {'''))
R('v-t-wait0', 'C16', T, ('''                if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                else Notify(std::make_pair(KeyType::ignored,' '));

                step = Step::_1;
''', '''                step = Step::_1;
                Notify({ (c == 0 /* linux */ || c == 10 /* win */) ? KeyType::ret : KeyType::ignored, ' ' });
'''))
R('v-t-states', 'C16', T, ('''        switch(step)
        {
            case Step::_1:
                switch( c )
                {
                    case static_cast<char>(EOF):''', '''        switch(step)
        {
            case Step::_1:
                Plain(c);
                break;

            case Step::_2: // got 27 last time
                if ( c == 91 )
                {
                    step = Step::_3;
                    break;  // arrow keys
                }
                else
                {
                    step = Step::_1;
                    Notify(std::make_pair(KeyType::ignored,' '));
                    break; // unknown
                }
                break;

            case Step::_3: // got 27 and 91
                Arrow(c);
                break;

            case Step::_4: // got 27, 91 and 51
                if ( c != 126 )
                {
                    Unknown(c);
                    break;
                }
                step = Step::_1;
                Notify(std::make_pair(KeyType::canc,' '));
                break;

            case Step::_5: // in the middle of an unknown sequence
                Unknown(c);
                break;

            case Step::wait_0:
                if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                else Notify(std::make_pair(KeyType::ignored,' '));

                step = Step::_1;

                break;

        }
    }

private:

    void Plain(char c)
    {
                switch( c )
                {
                    case static_cast<char>(EOF):'''), ('''                        Notify(std::make_pair(KeyType::ascii,ch));
                    }
                }
                break;

            case Step::_2: // got 27 last time
                if ( c == 91 )
                {
                    step = Step::_3;
                    break;  // arrow keys
                }
                else
                {
                    step = Step::_1;
                    Notify(std::make_pair(KeyType::ignored,' '));
                    break; // unknown
                }
                break;

            case Step::_3: // got 27 and 91
                switch( c )''', '''                        Notify(std::make_pair(KeyType::ascii,ch));
                    }
                }
    }

    void Arrow(char c)
    {
                switch( c )'''), ('''                    default: Unknown(c); break;  // not arrow keys
                }
                break;

            case Step::_4: // got 27, 91 and 51
                if ( c == 126 )
                {
                    step = Step::_1;
                    Notify(std::make_pair(KeyType::canc,' '));
                }
                else
                    Unknown(c);
                break;

            case Step::_5: // in the middle of an unknown sequence
                Unknown(c);
                break;

            case Step::wait_0:
                if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                else Notify(std::make_pair(KeyType::ignored,' '));

                step = Step::_1;

                break;

        }
    }

private:
''', '''                    default: Unknown(c); break;  // not arrow keys
                }
    }
'''))
R('v-t-create', 'C23', T, ('''        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
        session->CliSession::EnterAction(enterAction);
        return session;''', '''        const auto result = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
        CliSession& cliSession = *result;
        cliSession.EnterAction(enterAction);
        return result;'''))
R('v-t-bye', 'C17 C23', T, ("ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );", "const auto bye = [this, _exitAction](std::ostream& _out)\n        {\n            if (_exitAction)\n                _exitAction(_out);\n            this->Disconnect();\n        };\n        ExitAction(bye);"))
R('v-t-actions', 'C23', T, ("        enterAction = action;", "        enterAction = std::move(action);"), ("        exitAction = action;", "        exitAction.swap(action);"))
# ---- server
R('v-v-accept', 'C23', S, ('''                if (alive.expired()) return; // the server has been destroyed in the meantime
                Accept(); // go on accepting, whatever the session does
                if (!ec) CreateSession(std::move(socket))->Start();''', '''                if (!alive.expired()) // the server has not been destroyed in the meantime
                    OnAccept(ec, std::move(socket));'''), ("    std::shared_ptr<void> token{", '''    void OnAccept(const asiolibec::error_code& ec, asiolib::ip::tcp::socket socket)
    {
        Accept(); // go on accepting, whatever the session does
        if (ec)
            return;
        const auto session = CreateSession(std::move(socket));
        session->Start();
    }
    std::shared_ptr<void> token{'''))
R('v-v-send', 'C15', S, ('''        if ((ec == asiolib::error::eof) || (ec == asiolib::error::connection_reset))
            OnDisconnect();
        else if (ec)
            OnError();
    }

    virtual std::ostream& OutStream()''', '''        if (!ec)
            return;
        if (IsDisconnection(ec))
            OnDisconnect();
        else
            OnError();
    }

    static bool IsDisconnection(const asiolibec::error_code& ec)
    {
        return ec == asiolib::error::eof || ec == asiolib::error::connection_reset;
    }

    virtual std::ostream& OutStream()'''), ("if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )", "if ( !socket.is_open() || IsDisconnection(ec) )"))
R('v-v-read', 'C15 C17', S, ('''              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
              }
          });
    }
''', '''              OnRead( ec, length );
          });
    }

    void OnRead(asiolibec::error_code ec, std::size_t length)
    {
        if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
        {
            OnDisconnect();
            return;
        }
        if ( ec )
        {
            OnError();
            return;
        }
        const std::string received( data, data + length );
        OnDataReceived( received );
        Read();
    }
'''))
R('v-v-xsputn', 'C15', S, ("        Send(Encode(std::string(s, s+n)));\n        return n;", "        const std::string text(s, static_cast<std::size_t>(n));\n        Send(Encode(text));\n        return n;"))
R('v-v-overflow', 'C15', S, ("        Send(Encode(std::string(1, static_cast< char >(c))));\n        return c;", "        const char ch = static_cast< char >(c);\n        xsputn(&ch, 1);\n        return c;"))
# ---- asio scheduler
R('v-g-stop', 'C19', G, ('''        if (work)
            ASIOLIB::Reset(*work);
        context->stop();''', '''        auto* const guard = work.get();
        if (guard != nullptr)
            ASIOLIB::Reset(*guard);
        context->stop();'''))
R('v-g-dtor', 'C19', G, ('''        if (owned)
        {
            work.reset(); // work uses context, so it must be deleted before context
            delete context;
        }''', '''        if (!owned)
            return;
        work = nullptr; // work uses context, so it must be deleted before context
        delete context;'''))
# ---- async session
R('v-a-newline', 'C20 C17', A, ('''            auto bufs = inputBuffer.data();
            auto size = static_cast<long>(length);
            if ( !error ) --size; // remove \\n
            std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
            inputBuffer.consume( length );

            Feed( s );
            if (!Exited()) Read();''', '''            const long size = static_cast<long>(length) - (error ? 0 : 1); // remove \\n
            auto bufs = inputBuffer.data();
            const auto begin = asiolib::buffers_begin( bufs );
            const std::string line(begin, begin + size);
            inputBuffer.consume( length );

            Feed( line );
            if (Exited())
                return;
            Read();'''))
R('v-a-early', 'C20 C17', A, ('''        if ( !error || error == asiolib::error::not_found )
        {
''', '''        const bool gotLine = !error || error == asiolib::error::not_found;
        if ( gotLine )
        {
'''))
R('v-a-extract', 'C20 C17', A, ('''            auto bufs = inputBuffer.data();
            auto size = static_cast<long>(length);
            if ( !error ) --size; // remove \\n
            std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
            inputBuffer.consume( length );

            Feed( s );''', '''            const std::size_t size = error ? length : length - 1; // remove \\n
            Feed( Extract(size, length) );'''), ("    asiolib::streambuf inputBuffer;\n", '''    std::string Extract(std::size_t size, std::size_t length)
    {
        auto bufs = inputBuffer.data();
        std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + static_cast<long>(size));
        inputBuffer.consume( length );
        return s;
    }

    asiolib::streambuf inputBuffer;
'''))
R('v-a-lambda', 'C20 C17', A, ('''            std::bind( &GenericCliAsyncSession::NewLine, this,
                       std::placeholders::_1,
                       std::placeholders::_2 )''', '''            [this](const asiolibec::error_code& error, std::size_t length) { NewLine(error, length); }'''))
