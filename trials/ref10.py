"""Refactorings (tenth batch): common prefix, server, sessions, schedulers, input devices, command processor."""
TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
X, SV, AS, FS, LS, ID, GS, CP = 'detail/commonprefix.h', 'detail/server.h', 'detail/genericcliasyncsession.h', 'clifilesession.h', 'clilocalsession.h', 'detail/inputdevice.h', 'detail/genericasioscheduler.h', 'detail/commandprocessor.h'
BODY = '''    std::string prefix;

    // find the shorter string
    auto smin = std::min_element(v.begin(), v.end(),
                [] (const std::string& s1, const std::string& s2)
                {
                    return s1.size() < s2.size();
                });

    for (std::size_t i = 0; i < smin->size(); ++i)
    {
        // check if i-th element is equal in each input string
        const char c = (*smin)[i];
        for (auto& x: v)
            if (x[i] != c) return prefix;
        prefix += c;
    }

    return prefix;
'''
R('y-x-pop', 'C14', X, (BODY, '''    std::string prefix = v[0];
    for (std::size_t i = 1; i < v.size(); ++i)
        while (v[i].compare(0, prefix.size(), prefix) != 0)
            prefix.pop_back();
    return prefix;
'''))
R('y-x-find', 'C14', X, (BODY, '''    std::string prefix = v.front();
    for (const auto& s : v)
        while (s.find(prefix) != 0)
            prefix.pop_back();
    return prefix;
'''))
R('y-x-find2', 'C14', X, (BODY, '''    std::string prefix = v.front();
    for (const auto& s : v)
        while (s.substr(0, prefix.size()) != prefix)
            prefix = prefix.substr(0, prefix.size() - 1);
    return prefix;
'''))
R('y-x-mism', 'C14', X, (BODY, '''    auto last = v.front().end();
    for (const auto& s : v)
    {
        auto i = v.front().begin();
        auto j = s.begin();
        while (i != last && j != s.end() && *i == *j) { ++i; ++j; }
        last = i;
    }
    return std::string(v.front().begin(), last);
'''))
R('y-x-equal', 'C14', X, (BODY, '''    const std::string& first = v[0];
    std::size_t n = first.size();
    for (std::size_t i = 1; i < v.size(); ++i)
    {
        n = std::min(n, v[i].size());
        for (std::size_t j = 0; j < n; ++j)
            if (v[i][j] != first[j]) n = j;
    }
    return first.substr(0, n);
'''))
R('y-x-nested', 'C14', X, (BODY, '''    std::size_t n = 0;
    for (;;)
    {
        for (const auto& x: v)
            if (n >= x.size() || x[n] != v[0][n]) return v[0].substr(0, n);
        ++n;
    }
'''))
R('y-x-same', 'C14', X, (BODY, '''    std::size_t n = 0;
    bool same = true;
    while (same)
    {
        for (const auto& x: v)
            if (n == x.size() || x[n] != v[0][n]) same = false;
        if (same) ++n;
    }
    return v[0].substr(0, n);
'''))
R('y-x-index', 'C14', X, (BODY, '''    std::string prefix = v[0];
    for (std::size_t i = 1; i < v.size(); ++i)
    {
        std::size_t n = 0;
        while (n < prefix.size() && n < v[i].size() && prefix[n] == v[i][n]) ++n;
        prefix = prefix.substr(0, n);
    }
    return prefix;
'''))
R('y-x-len', 'C14', X, (BODY, '''    const std::string& first = v.front();
    std::size_t len = first.size();
    for (const auto& s : v)
    {
        std::size_t n = 0;
        while (n < len && n < s.size() && first[n] == s[n]) ++n;
        len = n;
    }
    return first.substr(0, len);
'''))
R('y-x-anyof', 'C14', X, (BODY, '''    const std::string& first = v.front();
    for (std::size_t i = 0; i < first.size(); ++i)
    {
        const bool differs = std::any_of(v.begin(), v.end(), [&](const std::string& x) { return i >= x.size() || x[i] != first[i]; });
        if (differs) return first.substr(0, i);
    }
    return first;
'''))
R('y-x-helper', 'C14', X, ('inline std::string CommonPrefix(', '''inline bool AllHave(const std::vector<std::string>& v, std::size_t i, char c)
{
    for (const auto& x: v)
        if (x[i] != c) return false;
    return true;
}

inline std::string CommonPrefix('''), ('''        for (auto& x: v)
            if (x[i] != c) return prefix;
''', '''        if (!AllHave(v, i, c)) break;
'''))
R('y-x-minloop', 'C14', X, ('''    auto smin = std::min_element(v.begin(), v.end(),
                [] (const std::string& s1, const std::string& s2)
                {
                    return s1.size() < s2.size();
                });

    for (std::size_t i = 0; i < smin->size(); ++i)
    {
        // check if i-th element is equal in each input string
        const char c = (*smin)[i];
''', '''    std::size_t shortest = v[0].size();
    for (const auto& x: v)
        shortest = std::min(shortest, x.size());

    for (std::size_t i = 0; i < shortest; ++i)
    {
        const char c = v[0][i];
'''))
R('y-x-minif', 'C14', X, ('''    auto smin = std::min_element(v.begin(), v.end(),
                [] (const std::string& s1, const std::string& s2)
                {
                    return s1.size() < s2.size();
                });
''', '''    auto smin = v.begin();
    for (auto it = v.begin(); it != v.end(); ++it)
        if (it->size() < smin->size()) smin = it;
'''))
R('y-v-gone', 'C17 C23', SV, ('''              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
              }
''', '''              if ( socket.is_open() && !ec )
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
                  return;
              }
              if ( !socket.is_open() || PeerGone( ec ) )
                  OnDisconnect();
              else
                  OnError();
'''), ('''        if ((ec == asiolib::error::eof) || (ec == asiolib::error::connection_reset))
            OnDisconnect();
        else if (ec)
            OnError();
''', '''        if (!ec) return;
        if (PeerGone(ec)) OnDisconnect();
        else OnError();
'''), ('''    asiolib::ip::tcp::socket socket;
    enum''', '''    static bool PeerGone(const asiolibec::error_code& ec)
    {
        return ec == asiolib::error::eof || ec == asiolib::error::connection_reset;
    }

    asiolib::ip::tcp::socket socket;
    enum'''))
R('y-v-readhandler', 'C17 C15', SV, ('''          [ this, self ]( asiolibec::error_code ec, std::size_t length )
          {
              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
              }
          });
    }
''', '''          [ this, self ]( asiolibec::error_code ec, std::size_t length ) { Received( ec, length ); });
    }

    void Received( const asiolibec::error_code& ec, std::size_t length )
    {
        if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
        {
            OnDisconnect();
            return;
        }
        if ( ec )
        {
            OnError();
            return;
        }
        const std::string received( data, data + length );
        OnDataReceived( received );
        Read();
    }
'''))
R('y-v-sendall', 'C15', SV, ('''        Send(Encode(std::string(s, s+n)));
        return n;''', '''        const std::string text(s, static_cast<std::size_t>(n));
        const std::string encoded = Encode(text);
        Send(encoded);
        return n;'''), ('''        Send(Encode(std::string(1, static_cast< char >(c))));
        return c;''', '''        const char ch = static_cast< char >(c);
        xsputn(&ch, 1);
        return c;'''))
R('y-v-accept', 'C23', SV, ('''                if (alive.expired()) return; // the server has been destroyed in the meantime
                Accept(); // go on accepting, whatever the session does
                if (!ec) CreateSession(std::move(socket))->Start();
''', '''                if (!alive.expired())
                {
                    Accept(); // go on accepting, whatever the session does
                    if (ec) return;
                    auto session = CreateSession(std::move(socket));
                    session->Start();
                }
'''))
R('y-v-accept2', 'C23', SV, ('''                if (alive.expired()) return; // the server has been destroyed in the meantime
                Accept(); // go on accepting, whatever the session does
                if (!ec) CreateSession(std::move(socket))->Start();
''', '''                const bool destroyed = alive.expired();
                if (destroyed) return;
                Accepted(ec, std::move(socket));
'''), ('''    std::shared_ptr<void> token{''', '''    void Accepted(const asiolibec::error_code& ec, asiolib::ip::tcp::socket socket)
    {
        Accept();
        if (!ec)
            CreateSession(std::move(socket))->Start();
    }
    std::shared_ptr<void> token{'''))
R('y-a-split', 'C20 C17', AS, ('''        if ( !error || error == asiolib::error::not_found )
        {
            auto bufs = inputBuffer.data();
            auto size = static_cast<long>(length);
            if ( !error ) --size; // remove \\n
            std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
            inputBuffer.consume( length );

            Feed( s );
            if (!Exited()) Read();
        }
        else
        {
            asiolibec::error_code ec; // a failure to close must not prevent the exit actions
            input.close(ec);
            Exit();
        }
    }
''', '''        if ( error && error != asiolib::error::not_found )
        {
            asiolibec::error_code ec; // a failure to close must not prevent the exit actions
            input.close(ec);
            Exit();
            return;
        }
        Feed( ExtractLine( error ? length : length - 1, length ) );
        if (!Exited()) Read();
    }

    std::string ExtractLine( std::size_t size, std::size_t length )
    {
        auto bufs = inputBuffer.data();
        auto first = asiolib::buffers_begin( bufs );
        std::string line( first, first + static_cast<long>( size ) );
        inputBuffer.consume( length );
        return line;
    }
'''))
R('y-a-bindlambda', 'C20', AS, ('''            std::bind( &GenericCliAsyncSession::NewLine, this,
                       std::placeholders::_1,
                       std::placeholders::_2 )
''', '''            [this]( const asiolibec::error_code& error, std::size_t length ) { NewLine( error, length ); }
'''))
R('y-f-start', 'C20 C17', FS, ('''        while(!Exited())
        {
            Prompt();
            std::string line;
            if (!in.good())
                Exit();
            std::getline(in, line);
            if (in.eof())
                Exit();
            else
                Feed(line);
        }
''', '''        for (;;)
        {
            if (Exited()) return;
            std::string line;
            Prompt();
            if (!in.good()) Exit();
            std::getline(in, line);
            if (!in.eof())
            {
                Feed(line);
                continue;
            }
            Exit();
        }
'''))
R('y-f-step', 'C20', FS, ('''            Prompt();
            std::string line;
            if (!in.good())
                Exit();
            std::getline(in, line);
            if (in.eof())
                Exit();
            else
                Feed(line);
        }
    }

private:
''', '''            Prompt();
            ReadLine();
        }
    }

private:
    void ReadLine()
    {
        std::string line;
        if (in.fail() || in.bad() || in.eof())
            Exit();
        std::getline(in, line);
        const bool end = in.eof();
        if (end) Exit();
        if (!end) Feed(line);
    }
'''))
R('y-f-check', 'C20', FS, ('''        if (!_in.good()) throw std::invalid_argument("istream invalid");
        if (!_out.good()) throw std::invalid_argument("ostream invalid");
''', '''        Check(_in.good(), "istream invalid");
        Check(_out.good(), "ostream invalid");
'''), ('''private:
''', '''private:
    static void Check(bool valid, const char* message)
    {
        if (valid) return;
        throw std::invalid_argument(message);
    }
'''))
R('y-i-notify', 'C14 C16 C22', ID, ('''        scheduler.Post([this,k](){ if (handler) handler(k); });
''', '''        const auto call = [this, k]()
        {
            if (!handler) return;
            handler(k);
        };
        scheduler.Post(call);
'''))
R('y-i-call', 'C14 C16 C22', ID, ('''        scheduler.Post([this,k](){ if (handler) handler(k); });
    }

private:
''', '''        scheduler.Post([this,k](){ Call(k); });
    }

private:

    void Call(const std::pair<KeyType,char>& k) const
    {
        if (handler != nullptr) handler(k);
    }
'''))
R('y-g-run', 'C19', GS, ('''        if (owned)
        {
            work.reset(); // work uses context, so it must be deleted before context
            delete context;
        }
''', '''        if (!owned) return;
        work = nullptr; // work uses context, so it must be deleted before context
        delete context;
'''), ('''        if (work)
            ASIOLIB::Reset(*work);
        context->stop();
''', '''        ReleaseWork();
        AsioContext().stop();
'''), ('''private:

    using ExecutorType''', '''private:

    void ReleaseWork()
    {
        if (!work) return;
        ASIOLIB::Reset(*work);
    }

    using ExecutorType'''))
R('y-p-complete', 'C14', CP, ('''                auto line = terminal.GetLine();
                auto completions = session.GetCompletions(line);

                if (completions.empty())
                    break;
                if (completions.size() == 1)
                {
                    terminal.SetLine(completions[0]+' ');
                    break;
                }

                auto commonPrefix = CommonPrefix(completions);
                if (commonPrefix.size() > line.size())
                {
                    terminal.SetLine(commonPrefix);
                    break;
                }
                session.OutStream() << '\\n';
                std::string items;
                std::for_each( completions.begin(), completions.end(), [&items](auto& cmd){ items += '\\t' + cmd; } );
                session.OutStream() << items << '\\n';
                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine( line );
                break;
''', '''                Complete(terminal.GetLine());
                break;
'''), ('''                const auto currentLine = terminal.GetLine();
                terminal.Clear();
                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine(currentLine);
                break;
''', '''                const auto currentLine = terminal.GetLine();
                terminal.Clear();
                Redraw(currentLine);
                break;
'''), ('''    CliSession& session;
    Terminal<SCREEN> terminal;''', '''    void Redraw(const std::string& line)
    {
        session.Prompt();
        terminal.ResetCursor();
        terminal.SetLine(line);
    }

    void Complete(const std::string& line)
    {
        const std::vector<std::string> completions = session.GetCompletions(line);
        switch (completions.size())
        {
            case 0: return;
            case 1:
                terminal.SetLine(completions.front() + ' ');
                return;
            default:
                break;
        }
        const auto commonPrefix = CommonPrefix(completions);
        if (line.size() < commonPrefix.size())
        {
            terminal.SetLine(commonPrefix);
            return;
        }
        auto& out = session.OutStream();
        out << '\\n';
        for (const auto& c : completions)
            out << '\\t' << c;
        out << '\\n';
        Redraw(line);
    }

    CliSession& session;
    Terminal<SCREEN> terminal;'''))
R('y-p-guard', 'C14 C22', CP, ('''                kb.DeactivateInput();
                session.Feed(s.second);
                session.Prompt();
                kb.ActivateInput();
                break;
''', '''                RunCommand(s.second);
                break;
'''), ('''    CliSession& session;
    Terminal<SCREEN> terminal;''', '''    void RunCommand(const std::string& line)
    {
        InputDevice& device = kb;
        device.DeactivateInput();
        session.Feed(line);
        session.Prompt();
        device.ActivateInput();
    }

    CliSession& session;
    Terminal<SCREEN> terminal;'''))
R('y-p-ifs', 'C14', CP, ('''        const std::pair<Symbol,std::string> s = terminal.Keypressed(k);
        NewCommand(s);
''', '''        NewCommand(terminal.Keypressed(k));
'''), ('''                auto line = terminal.GetLine();
                terminal.SetLine(session.PreviousCmd(line));
''', '''                const auto previous = session.PreviousCmd(terminal.GetLine());
                terminal.SetLine(previous);
'''))
