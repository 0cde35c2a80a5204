K, I_, G, SV, A, L, FI, LO, GS = 'detail/linuxkeyboard.h', 'detail/inputdevice.h', 'detail/genericasioremotecli.h', 'detail/server.h', 'detail/genericcliasyncsession.h', 'loopscheduler.h', 'clifilesession.h', 'clilocalsession.h', 'detail/genericasioscheduler.h'
def mk(kind):
    def f(id, props, fl, *edits, **k): return dict(id=id, props=props.split(), kind=kind, edits=[(fl, a, b) for a, b in edits], **k)
    return f
B, R = mk('bug'), mk('ref')
TRIALS = [
 B('k-act-order', 'C16 C14', K, ('                auto k = Get();\n                Notify(k);', '                auto k = Get();\n                if (k.first != KeyType::ignored) Notify(k);')),
 B('k-deact', 'C14', K, ('        std::lock_guard<std::mutex> lock(mtx);\n        enabled = false;', '        enabled = false;')),
 B('k-deact2', 'C14', K, ('        ToStandardMode();\n        std::lock_guard<std::mutex> lock(mtx);\n        enabled = false;', '        ToStandardMode();')),
 R('k-notify', 'C14 C16', K, ('        enabled = true;\n        cv.notify_one();', '        cv.notify_one();\n        enabled = true;')),
 B('k-home', 'C16', K, ('case 70: return std::make_pair(KeyType::end', 'case 71: return std::make_pair(KeyType::end')),
 B('k-canc', 'C16', K, ("if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');\n                            break;", "return std::make_pair(KeyType::canc,' ');")),
 B('k-8', 'C16', K, ('            case 127:\n            case 8:', '            case 8:')),
 B('k-stop', 'C14', K, ('        while (ready == 0 || (ready == -1 && errno == EINTR));', '        while (ready == 0);')),
 B('i-post', 'C14 C16', I_, ('scheduler.Post([this,k](){ if (handler) handler(k); });', 'if (handler) handler(k); else scheduler.Post([this,k](){ if (handler) handler(k); });')),
 B('g-encode', 'C15', G, ("if (c == '\\n') result += '\\r';", "if (c == '\\n' && (result.empty() || result.back() != '\\r')) result += '\\r';")),
 B('g-iac-sub', 'C15', G, ('            if (c == IAC)\n                Data(c);\n            else\n                Command(c);', '            if (c == IAC)\n            { if (state == State::data) Data(c); }\n            else\n                Command(c);')),
 B('g-nop', 'C15', G, ('            case GoAhead:\n            case NOP:\n                state = State::data;\n                break;', '            case GoAhead:\n            case NOP:\n                break;')),
 B('g-se', 'C15', G, ('                if (state == State::sub)\n                    state = State::data;\n                else', '                if (state != State::data)\n                    state = state == State::sub ? State::data : state;\n                else')),
 B('g-escape-after', 'C15', G, ('                Command(c);\n            escape = false;', '                Command(c);\n            escape = (state == State::wait_dont && c == IAC);')),
 B('g-dont', 'C15', G, ('            case DONT:\n                state = State::wait_dont;', '            case DONT:\n                state = State::wait_do;')),
 B('g-willnaws', 'C15', G, ('SendIacCmd(DO, NEGOTIATE_ABOUT_WIN_SIZE);', 'SendIacCmd(DO, NEGOTIATE_ABOUT_WIN_SIZE);\n                SendIacCmd(DONT, _ECHO);')),
 B('g-rxdo-echo', 'C15', G, ('                SendIacCmd(DO, _ECHO);\n                break;', '                break;')),
 B('g-cr', 'C16', G, ('                else Notify(std::make_pair(KeyType::ignored,\' \'));\n                step = Step::_1;', '                else Notify(std::make_pair(KeyType::ignored,\' \'));\n                if (c != 13) step = Step::_1;')),
 B('g-esc2', 'C16', G, ('                    step = Step::_1;\n                    Notify(std::make_pair(KeyType::ignored,\' \'));\n                    break; // unknown', '                    if (c != 27) step = Step::_1;\n                    Notify(std::make_pair(KeyType::ignored,\' \'));\n                    break; // unknown')),
 B('g-exitaction', 'C17', G, ('ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );', 'ExitAction([this, _exitAction](std::ostream& _out){ Disconnect(); if (_exitAction) _exitAction(_out); } );')),
 B('g-connect', 'C17', G, ('        TelnetSession::OnConnect();\n        Enter();\n        Prompt();', '        TelnetSession::OnConnect();\n        Prompt();\n        Enter();')),
 B('sv-overflow', 'C15', SV, ('        Send(Encode(std::string(1, static_cast< char >(c))));', '        Send(std::string(1, static_cast< char >(c)));')),
 B('sv-read', 'C15', SV, ('OnDataReceived( std::string( data, length ));', 'OnDataReceived( std::string( data ));')),
 B('sv-readfirst', 'C15', SV, ('                  OnDataReceived( std::string( data, length ));\n                  Read();', '                  Read();\n                  OnDataReceived( std::string( data, length ));')),
 B('sv-encode-n', 'C15', SV, ('        Send(Encode(std::string(s, s+n)));', '        Send(Encode(std::string(s, s+(n > max_length ? max_length : n))));')),
 B('a-size', 'C20 C17', A, ('if ( !error ) --size; // remove \\n', '--size; // remove \\n')),
 B('a-consume', 'C20 C17', A, ('            inputBuffer.consume( length );\n', '            inputBuffer.consume( inputBuffer.size() );\n')),
 B('a-exited', 'C17', A, ('if (!Exited()) Read();', 'Read();')),
 B('l-execone', 'C19', L, ('            if (!running)\n                return false;\n            task = tasks.front();', '            if (!running && tasks.empty())\n                return false;\n            task = tasks.front();')),
 B('l-post', 'C19', L, ('        tasks.push(f);\n        cv.notify_all();', '        tasks.push(f);\n        if (tasks.size() == 1) cv.notify_one();')),
 B('l-stop', 'C19', L, ('        running = false;\n        cv.notify_all();', '        running = false;\n        cv.notify_one();')),
 B('l-poplate', 'C19', L, ('''            std::lock_guard<std::mutex> lck(mtx);
            if (!running || tasks.empty())
                return false;
            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();
''', '''            std::lock_guard<std::mutex> lck(mtx);
            if (!running || tasks.empty())
                return false;
            task = tasks.front();
        }

        if (task)
            task();
        {
            std::lock_guard<std::mutex> lck(mtx);
            if (!tasks.empty()) tasks.pop();
        }
''')),
 B('l-stopped', 'C19', L, ('        std::lock_guard<std::mutex> lck (mtx);\n        return !running;', '        return !running;')),
 B('l-lockheld', 'C19', L, ('''            std::lock_guard<std::mutex> lck(mtx);
            if (!running || tasks.empty())
                return false;
            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();
''', '''            std::lock_guard<std::mutex> lck(mtx);
            if (!running || tasks.empty())
                return false;
            task = tasks.front();
            tasks.pop();
            if (task)
                task();
        }
''')),
 B('l-run', 'C19', L, ('        while( ExecOne() ) {};', '        while( !Stopped() && ExecOne() && !tasks.empty() ) {};')),
 B('fi-eof', 'C20', FI, ('            if (in.eof())\n                Exit();', '            if (in.eof() && line.empty())\n                Exit();')),
 B('fi-prompt', 'C20', FI, ('            Prompt();\n            std::string line;', '            if (in.peek() != \'\\n\') Prompt();\n            std::string line;')),
 B('fi-cr', 'C20', FI, ('                Feed(line);', '                { if (!line.empty() && line.back() == \'\\r\') line.pop_back(); Feed(line); }')),
 B('fi-exited', 'C20', FI, ('        while(!Exited())', '        while(!Exited() || in.rdbuf()->in_avail() > 0)')),
 B('fi-ostream', 'C20', FI, ('if (!_out.good()) throw', 'if (_out.bad()) throw')),
 B('lo-enter', 'C17', LO, ('        Enter();\n        Prompt();', '        Prompt();\n        Enter();')),
 # harmless
 R('rk-helper', 'C16 C14', K, ('''                auto k = Get();
                Notify(k);''', '''                Notify(Get());''')),
 R('rk-arrow', 'C16', K, ('''                        case 65: return std::make_pair(KeyType::up,' ');
                        case 66: return std::make_pair(KeyType::down,' ');
                        case 68: return std::make_pair(KeyType::left,' ');
                        case 67: return std::make_pair(KeyType::right,' ');
                        case 70: return std::make_pair(KeyType::end,' ');
                        case 72: return std::make_pair(KeyType::home,' ');''', '''                        case 'A': return {KeyType::up, ' '};
                        case 'B': return {KeyType::down, ' '};
                        case 'C': return {KeyType::right, ' '};
                        case 'D': return {KeyType::left, ' '};
                        case 'F': return {KeyType::end, ' '};
                        case 'H': return {KeyType::home, ' '};''')),
 R('rk-split', 'C16', K, ('''            case 27: // symbol
                ch = GetChar();
                if ( ch == 91 ) // arrow keys
                {
                    ch = GetChar();
                    switch( ch )
                    {
                        case 51:
                            ch = GetChar();
                            if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                            break;
                        case 65: return std::make_pair(KeyType::up,' ');
                        case 66: return std::make_pair(KeyType::down,' ');
                        case 68: return std::make_pair(KeyType::left,' ');
                        case 67: return std::make_pair(KeyType::right,' ');
                        case 70: return std::make_pair(KeyType::end,' ');
                        case 72: return std::make_pair(KeyType::home,' ');
                        default: break;
                    }
                    // skip an unknown sequence up to its final char
                    while ( ch >= 32 && ch <= 63 ) ch = GetChar();
                }
                break;
            default: // ascii
            {
                const char c = static_cast<char>(ch);
                return std::make_pair(KeyType::ascii,c);
            }
        }
        return std::make_pair(KeyType::ignored,' ');
    }
''', '''            case 27: // symbol
                return GetEscape();
            default: // ascii
            {
                const char c = static_cast<char>(ch);
                return std::make_pair(KeyType::ascii,c);
            }
        }
    }

    std::pair<KeyType,char> GetEscape()
    {
        auto ch = GetChar();
        if ( ch != 91 ) // no arrow keys
            return std::make_pair(KeyType::ignored,' ');
        ch = GetChar();
        switch( ch )
        {
            case 51:
                ch = GetChar();
                if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                break;
            case 65: return std::make_pair(KeyType::up,' ');
            case 66: return std::make_pair(KeyType::down,' ');
            case 68: return std::make_pair(KeyType::left,' ');
            case 67: return std::make_pair(KeyType::right,' ');
            case 70: return std::make_pair(KeyType::end,' ');
            case 72: return std::make_pair(KeyType::home,' ');
            default: break;
        }
        // skip an unknown sequence up to its final char
        while ( ch >= 32 && ch <= 63 ) ch = GetChar();
        return std::make_pair(KeyType::ignored,' ');
    }
''')),
 R('rk-unique', 'C14', K, ('''        std::lock_guard<std::mutex> lock(mtx);
        enabled = true;
        cv.notify_one();''', '''        std::unique_lock<std::mutex> lock(mtx);
        enabled = true;
        cv.notify_all();''')),
 R('rg-encode', 'C15', G, ('''        for (char c: _data)
        {
            if (c == '\\n') result += '\\r';
            result += c;
        }''', '''        for (std::size_t i = 0; i < _data.size(); ++i)
        {
            if (_data[i] == '\\n')
                result.append("\\r\\n");
            else
                result.push_back(_data[i]);
        }''')),
 R('rg-consume', 'C15', G, ('''        if (escape)
        {
            if (c == IAC)
                Data(c);
            else
                Command(c);
            escape = false;
        }
        else
        {
            if (c == IAC)
                escape = true;
            else
                Data(c);
        }''', '''        const bool isIac = (c == IAC);
        if (!escape && isIac)
        {
            escape = true;
            return;
        }
        if (escape && !isIac)
            Command(c);
        else
            Data(c);
        escape = false;''')),
 R('rg-data', 'C15', G, ('''            case State::wait_will:
                RxWill(c);
                state = State::data;
                break;''', '''            case State::wait_will:
                state = State::data;
                RxWill(c);
                break;''')),
 R('rg-send', 'C15', G, ('''        std::string answer("\\x0FF\\x000\\x000", 3);
        answer[1] = action;
        answer[2] = op;
''', '''        std::string answer;
        answer += static_cast<char>(IAC);
        answer += action;
        answer += op;
''')),
 R('rg-notifykey', 'C16', G, ('''                    case 65: step = Step::_1; Notify(std::make_pair(KeyType::up,' ')); break;
                    case 66: step = Step::_1; Notify(std::make_pair(KeyType::down,' ')); break;''', '''                    case 65: Emit(KeyType::up); break;
                    case 66: Emit(KeyType::down); break;'''), ('''    void Unknown(char c)
    {''', '''    void Emit(KeyType k)
    {
        step = Step::_1;
        Notify(std::make_pair(k, ' '));
    }

    void Unknown(char c)
    {''')),
 R('rg-step2', 'C16', G, ('''                if ( c == 91 )
                {
                    step = Step::_3;
                    break;  // arrow keys
                }
                else
                {
                    step = Step::_1;
                    Notify(std::make_pair(KeyType::ignored,' '));
                    break; // unknown
                }
                break;''', '''                step = (c == 91) ? Step::_3 : Step::_1;
                if (step == Step::_1)
                    Notify(std::make_pair(KeyType::ignored,' '));
                break;''')),
 R('rsv-overflow', 'C15', SV, ('''        Send(Encode(std::string(1, static_cast< char >(c))));
        return c;''', '''        const char ch = static_cast< char >(c);
        xsputn(&ch, 1);
        return c;''')),
 R('rsv-read', 'C15', SV, ('''              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
              }''', '''              const bool closed = !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset );
              if ( closed ) { OnDisconnect(); return; }
              if ( ec ) { OnError(); return; }
              const std::string received( data, length );
              OnDataReceived( received );
              Read();''')),
 R('rl-wait', 'C19', L, ('            cv.wait(lck, [this](){ return !running || !tasks.empty(); });', '            while (running && tasks.empty())\n                cv.wait(lck);')),
 R('rl-take', 'C19', L, ('''            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();

        return true;
    }

private:''', '''            task = TakeFirst();
        }

        if (task)
            task();

        return true;
    }

private:
    std::function<void()> TakeFirst()
    {
        auto t = std::move(tasks.front());
        tasks.pop();
        return t;
    }
''')),
 R('rl-run', 'C19', L, ('        while( ExecOne() ) {};', '        bool more = true;\n        while (more)\n            more = ExecOne();')),
 R('rl-post', 'C19', L, ('''        std::lock_guard<std::mutex> lck (mtx);
        tasks.push(f);
        cv.notify_all();''', '''        {
            std::lock_guard<std::mutex> lck (mtx);
            tasks.push(f);
        }
        cv.notify_all();''')),
 R('rl-stop', 'C19', L, ('''        std::lock_guard<std::mutex> lck (mtx);
        running = false;
        cv.notify_all();''', '''        std::unique_lock<std::mutex> lck (mtx);
        running = false;
        lck.unlock();
        cv.notify_all();''')),
 R('rfi-loop', 'C20 C17', FI, ('''            if (in.eof())
                Exit();
            else
                Feed(line);''', '''            if (!in.eof())
                Feed(line);
            else
                Exit();''')),
 B('rfi-hoist', 'C20', FI, ('''        while(!Exited())
        {
            Prompt();
            std::string line;''', '''        std::string line;
        for (; !Exited(); )
        {
            Prompt();''')),
 R('ra-line', 'C17 C20', A, ('''            auto bufs = inputBuffer.data();
            auto size = static_cast<long>(length);
            if ( !error ) --size; // remove \\n
            std::string s(''', '''            const auto bufs = inputBuffer.data();
            const auto size = static_cast<long>(length) - ( error ? 0 : 1 ); // remove \\n
            const std::string s(''')),
 R('rlo', 'C17 C14', LO, ('        Enter();\n        Prompt();\n    }\n', '        Begin();\n    }\n'), ('''private:
    detail::Keyboard kb;''', '''private:
    void Begin()
    {
        Enter();
        Prompt();
    }

    detail::Keyboard kb;''')),
]
