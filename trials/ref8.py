"""Refactorings (eighth batch): larger restructurings of one function each."""
TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
C, T, H, S = 'cli.h', 'detail/genericasioremotecli.h', 'detail/history.h', 'detail/server.h'
R('w-feed-dispatch', 'C06 C03 C04', C, ('''        try
        {
            // global cmds check
            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong command handler if not found
                cli.WrongCommandHandler(out, cmd);
        }''', '''        try
        {
            if (!Dispatch(strs))
                cli.WrongCommandHandler(out, cmd);
        }'''), ('''    inline void CliSession::Prompt()
''', '''    inline bool CliSession::Dispatch(const std::vector<std::string>& words)
    {
        return globalScopeMenu->ScanCmds(words, *this) || current->ScanCmds(words, *this);
    }

    inline void CliSession::Prompt()
'''), ('''    private:

        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;''', '''    private:

        bool Dispatch(const std::vector<std::string>& words);

        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;'''))
R('w-feed-unknown', 'C06', C, ('''            out << "Cli. Unknown exception caught handling command line \\""
                << cmd
                << "\\"\\n";''', '''            const std::string message = "Cli. Unknown exception caught handling command line \\"" + cmd + "\\"\\n";
            out << message;'''))
R('w-feed-words', 'C06 C03', C, ('''        std::vector<std::string> strs;
        detail::split(strs, cmd);
        if (strs.empty()) return; // just hit enter
''', '''        const auto strs = [&cmd]()
        {
            std::vector<std::string> words;
            detail::split(words, cmd);
            return words;
        }();
        if (strs.empty())
            return;
'''))
R('w-scan-anyof', 'C04 C05', C, ('''            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert(!cmdLine.empty());
            return (parent && parent->ExecParent(cmdLine, session));''', '''            const Cmds entries = *cmds; // the handlers can add and remove commands
            const bool done = std::any_of(entries.begin(), entries.end(), [&](const std::shared_ptr<Command>& c){ return c->Exec(cmdLine, session); });
            if (done)
                return true;
            assert(!cmdLine.empty());
            if (parent == nullptr)
                return false;
            return parent->ExecParent(cmdLine, session);'''))
R('w-handle-guard', 'C04', C, ('''            if (std::find(cmdNames.begin(), cmdNames.end(), cmdLine[0]) != cmdNames.end())
            {
                if (cmdLine.size() == 1)
                {
                    session.Current(this);
                    return true;
                }
                else
                {
                    // check also for subcommands
                    std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
                    return (parent && parent->ExecParent(subCmdLine, session));
                }
            }
            return false;''', '''            const bool named = std::any_of(cmdNames.begin(), cmdNames.end(), [&](const std::string& n){ return n == cmdLine.front(); });
            if (!named)
                return false;

            if (cmdLine.size() == 1)
            {
                session.Current(this);
                return true;
            }

            // check also for subcommands
            const std::vector<std::string> rest(std::next(cmdLine.begin()), cmdLine.end());
            const Cmds entries(*cmds); // the handlers can add and remove commands
            for (std::size_t i = 0; i < entries.size(); ++i)
            {
                if (entries[i]->Exec(rest, session))
                    return true;
            }
            return parent != nullptr && parent->ExecParent(rest, session);'''))
R('w-handle-shared', 'C04', C, ('''            if (!IsEnabled())
                return false;
            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert(!cmdLine.empty());
            return (parent && parent->ExecParent(cmdLine, session));''', '''            if (!IsEnabled())
                return false;
            assert(!cmdLine.empty());
            return ExecEntries(cmdLine, session);'''), ('''                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
                    return (parent && parent->ExecParent(subCmdLine, session));
                }
            }
            return false;
        }
''', '''                    return ExecEntries(subCmdLine, session);
                }
            }
            return false;
        }

        bool ExecEntries(const std::vector<std::string>& cmdLine, CliSession& session)
        {
            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (const auto& entry: entries)
            {
                if (entry->Exec(cmdLine, session))
                    return true;
            }
            return parent ? parent->ExecParent(cmdLine, session) : false;
        }
'''))
R('w-insert-share', 'C04 C05', C, ('''            std::shared_ptr<Command> scmd(std::move(cmd));
            CmdHandler c(scmd, cmds);
            cmds->push_back(scmd);
            return c;''', '''            return Append(std::move(cmd));'''), ('''            std::shared_ptr<Menu> smenu(std::move(menu));
            CmdHandler c(smenu, cmds);
            smenu->parent = this;
            cmds->push_back(smenu);
            return c;''', '''            std::shared_ptr<Menu> smenu(std::move(menu));
            smenu->parent = this;
            return Append(smenu);'''), ('''        static std::string ParentShortcut()
''', '''        CmdHandler Append(std::shared_ptr<Command> entry)
        {
            cmds->push_back(entry);
            return CmdHandler(entry, cmds);
        }

        static std::string ParentShortcut()
'''))
R('w-remove-loop', 'C05', C, ('''                auto scmd = cmd.lock();
                auto scmds = cmds.lock();
                if (scmd && scmds)
                {
                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );
                    if (i != scmds->end())
                        scmds->erase(i);
                }''', '''                const auto scmd = cmd.lock();
                const auto scmds = cmds.lock();
                if (!scmd || !scmds)
                    return;
                for (auto i = scmds->begin(); i != scmds->end(); ++i)
                {
                    if (*i == scmd)
                    {
                        scmds->erase(i);
                        return;
                    }
                }'''))
R('w-remove-find', 'C05', C, ('''                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );
                    if (i != scmds->end())
                        scmds->erase(i);''', '''                    const auto i = std::find(scmds->begin(), scmds->end(), scmd);
                    if (i == scmds->end()) return;
                    scmds->erase(i);'''))
R('w-ctor-add', 'C04 C09', C, ('''            globalScopeMenu->Insert(
                "help",
                [this](std::ostream&){ Help(); },
                "This help message"
            );
            globalScopeMenu->Insert(
                "exit",
                [this](std::ostream&){ Exit(); },
                "Quit the session"
            );
            globalScopeMenu->Insert(
                "history",
                [this](std::ostream&){ ShowHistory(); },
                "Show the history"
            );
''', '''            Menu* const globals = globalScopeMenu.get();
            auto help = [this](std::ostream&){ this->Help(); };
            auto quit = [this](std::ostream&){ this->Exit(); };
            auto show = [this](std::ostream& o){ static_cast<void>(o); ShowHistory(); };
            globals->Insert("help", help, "This help message");
            globals->Insert("exit", quit, "Quit the session");
            globals->Insert("history", show, "Show the history");
'''))
R('w-compl-trim', 'C13', C, ('''        // trim_left(currentLine);
        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
        auto v1''', '''        std::size_t blanks = 0;
        while (blanks < currentLine.size() && std::isspace(currentLine[blanks]))
            ++blanks;
        currentLine.erase(0, blanks);
        auto v1'''))
R('w-compl-set', 'C13', C, ('''        auto v1 = globalScopeMenu->GetCompletions(currentLine);
        auto v3 = current->GetCompletions(currentLine);
        v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));

        // removes duplicates (std::unique requires a sorted container)
        std::sort(v1.begin(), v1.end());
        auto ip = std::unique(v1.begin(), v1.end());
        v1.resize(static_cast<std::size_t>(std::distance(v1.begin(), ip)));

        return v1;''', '''        std::vector<std::string> all = current->GetCompletions(currentLine);
        const std::vector<std::string> globals = globalScopeMenu->GetCompletions(currentLine);
        all.insert(all.end(), globals.begin(), globals.end());
        std::sort(all.begin(), all.end());
        all.erase(std::unique(all.begin(), all.end()), all.end());
        return all;'''))
R('w-help-shared', 'C04 C21', C, ('''            out << " - " << Name();
            if (parameterDesc.empty())
                PrintDesc<Args...>::Dump(out);
            for (auto& s: parameterDesc)
                out << " <" << s << '>';
            out << "\\n\\t" << description << "\\n";''', '''            out << " - " << Name();
            if (!parameterDesc.empty())
            {
                for (const std::string& s: parameterDesc)
                    out << " <" + s + ">";
            }
            else
            {
                PrintDesc<Args...>::Dump(out);
            }
            out << '\\n' << '\\t' << description << '\\n';'''))
R('w-variadic-exec', 'C03 C06', C, ('''            if (cmdLine.size() != paramSize+1) return false;
            if (Name() == cmdLine[0])
            {
                bool invoked = false;
                try
                {
                    auto g = [&](auto ... pars){ invoked = true; func( session.OutStream(), pars... ); };
                    Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                }
                catch (std::bad_cast&)
                {
                    if (invoked) // the exception comes from the handler, not from a parameter conversion
                        throw;
                    return false;
                }
                return true;
            }
            return false;''', '''            if (cmdLine.size() != 1 + paramSize || cmdLine.front() != Name()) return false;

            bool invoked = false;
            try
            {
                auto& out = session.OutStream();
                Select<Args...>::Exec(
                    [&](auto ... pars)
                    {
                        invoked = true;
                        func(out, pars...);
                    },
                    cmdLine.begin() + 1,
                    cmdLine.end());
                return true;
            }
            catch (const std::bad_cast&)
            {
                if (!invoked)
                    return false;
                throw; // the exception comes from the handler, not from a parameter conversion
            }'''))
R('w-freeform', 'C03 C21', C, ('''            assert(!cmdLine.empty());
            if (Name() == cmdLine[0])
            {
                func(session.OutStream(), std::vector<std::string>(std::next(cmdLine.begin()), cmdLine.end()));
                return true;
            }
            return false;''', '''            assert(!cmdLine.empty());
            if (cmdLine.front() != Name())
                return false;
            std::vector<std::string> pars;
            for (std::size_t i = 1; i < cmdLine.size(); ++i)
                pars.push_back(cmdLine[i]);
            func(session.OutStream(), pars);
            return true;'''))
R('w-select', 'C03 C02', C, ('''            const P p = detail::from_string<typename std::decay<P>::type>(*first);
            auto g = [&](auto ... pars){ f(p, pars...); };
            Select<Args...>::Exec(g, std::next(first), last);''', '''            using Par = typename std::decay<P>::type;
            const std::string& text = *first;
            ++first;
            const P p = detail::from_string<Par>(text);
            Select<Args...>::Exec([&](auto ... pars){ f(p, pars...); }, first, last);'''))
R('w-mainhelp', 'C04', C, ('''            if (!IsEnabled()) return;
            for (const auto& cmd: *cmds)
                cmd->Help(out);
            if (parent != nullptr)
                parent->Help(out);''', '''            if (IsEnabled())
            {
                std::for_each(cmds->begin(), cmds->end(), [&out](const std::shared_ptr<Command>& c){ c->Help(out); });
                if (parent)
                    parent->Help(out);
            }'''))
R('w-comprec', 'C13', C, ('''            auto rest = line;
            rest.erase(0, prefix.size());
            // trim_left(rest);
            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
            std::vector<std::string> result;
            for (const auto& cmd: *cmds)
            {
                auto cs = cmd->GetCompletionRecursive(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            if (parent != nullptr)
            {
                auto cs = parent->GetCompletionWithParent(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            return result;''', '''            // trim_left
            const auto start = std::find_if(line.begin() + static_cast<std::ptrdiff_t>(prefix.size()), line.end(), [](int ch) { return !std::isspace(ch); });
            const std::string rest(start, line.end());
            std::vector<std::string> result;
            const auto add = [&result, &prefix](const std::vector<std::string>& cs)
            {
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            };
            for (const auto& cmd: *cmds)
                add(cmd->GetCompletionRecursive(rest));
            if (parent != nullptr)
                add(parent->GetCompletionWithParent(rest));
            return result;'''))
R('w-comprec2', 'C13', C, ('''            auto rest = line;
            rest.erase(0, prefix.size());
            // trim_left(rest);
            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
            std::vector<std::string> result;
            for (const auto& cmd: *cmds)
            {
                auto cs = cmd->GetCompletionRecursive(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            if (parent != nullptr)
            {
                auto cs = parent->GetCompletionWithParent(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            return result;''', '''            std::size_t pos = prefix.size();
            while (pos < line.size() && std::isspace(line[pos]))
                ++pos;
            const auto rest = line.substr(pos);
            std::vector<std::string> result;
            for (const auto& cmd: *cmds)
            {
                const auto cs = cmd->GetCompletionRecursive(rest);
                result.insert(result.end(), cs.begin(), cs.end());
            }
            if (parent != nullptr)
            {
                const auto cs = parent->GetCompletionWithParent(rest);
                result.insert(result.end(), cs.begin(), cs.end());
            }
            for (auto& c: result)
                c = prefix + ' ' + c; // concat submenu with command
            return result;'''))
R('w-exec-guard', 'C09 C07', C, ('''            fromHistory.push_back(index);
            try
            {
                Feed(cmd);
            }
            catch (...)
            {
                fromHistory.pop_back();
                throw;
            }
            fromHistory.pop_back();''', '''            struct Running
            {
                Running(std::vector<unsigned>& v, unsigned i) : ids(v) { ids.push_back(i); }
                ~Running() { ids.pop_back(); }
                std::vector<unsigned>& ids;
            } running(fromHistory, index);
            Feed(cmd);'''))
R('w-exit-move', 'C17 C10', C, ('''            if (exit) return; // already ended
            exit = true; // prevent the prompt to be shown
''', '''            const bool ended = exit;
            exit = true; // prevent the prompt to be shown
            if (ended) return;
'''))
R('w-prompt-str', 'C17', C, ('''        out << beforePrompt
            << current->Prompt()
            << afterPrompt
            << "> "
            << std::flush;''', '''        const Menu& menu = *current;
        out << beforePrompt;
        out << menu.Prompt();
        out << afterPrompt;
        out << '>' << ' ';
        out << std::flush;'''))
R('w-cmdhandler', 'C05', C, ('''                if (auto c = cmd.lock())
                    c->Enable();''', '''                const std::shared_ptr<Command> target = cmd.lock();
                if (target != nullptr)
                    target->Enable();'''), ('''                if(auto c = cmd.lock())
                    c->Disable();''', '''                if (cmd.expired())
                    return;
                cmd.lock()->Disable();'''))
