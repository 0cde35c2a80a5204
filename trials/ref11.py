"""Refactorings (eleventh batch): cli.h."""
TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
C = 'cli.h'
R('z-unregister', 'C18', C, ('''            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
            if (i != ostreams.end())
                ostreams.erase(i);
''', '''            for (auto i = ostreams.begin(); i != ostreams.end(); ++i)
            {
                if (*i != &o) continue;
                ostreams.erase(i);
                break;
            }
'''))
R('z-run-action', 'C17', C, ('''            cli.EnterAction(out);

            if (enterAction)
                enterAction(out);
''', '''            cli.EnterAction(out);
            Run(enterAction);
'''), ('''            if (exit) return; // already ended
            exit = true; // prevent the prompt to be shown

            if (exitAction)
                exitAction(out);
            cli.ExitAction(out);

            auto cmds = history.GetCommands();
            cli.StoreCommands(cmds);
''', '''            if (!exit)
            {
                exit = true; // prevent the prompt to be shown
                Run(exitAction);
                cli.ExitAction(out);
                cli.StoreCommands(history.GetCommands());
            }
'''), ('''    protected:

        bool Exited() const noexcept''', '''    private:
        void Run(const std::function<void(std::ostream&)>& action)
        {
            if (action) action(out);
        }
    protected:

        bool Exited() const noexcept'''))
R('z-fromhistory', 'C09', C, ('''            if (std::find(fromHistory.begin(), fromHistory.end(), index) != fromHistory.end())
                throw std::runtime_error("History entry referring to itself");
            fromHistory.push_back(index);
            try
            {
                Feed(cmd);
            }
            catch (...)
            {
                fromHistory.pop_back();
                throw;
            }
            fromHistory.pop_back();
''', '''            const bool running = std::any_of(fromHistory.begin(), fromHistory.end(), [index](unsigned i) { return i == index; });
            if (running)
                throw std::runtime_error("History entry referring to itself");
            struct Guard
            {
                explicit Guard(std::vector<unsigned>& _ids, unsigned id) : ids(_ids) { ids.push_back(id); }
                ~Guard() { ids.pop_back(); }
                std::vector<unsigned>& ids;
            };
            const Guard guard(fromHistory, index);
            Feed(cmd);
'''))
R('z-fromhistory2', 'C09', C, ('''            if (std::find(fromHistory.begin(), fromHistory.end(), index) != fromHistory.end())
                throw std::runtime_error("History entry referring to itself");
''', '''            for (const auto id: fromHistory)
                if (id == index)
                    throw std::runtime_error("History entry referring to itself");
'''))
R('z-remove', 'C05', C, ('''                auto scmd = cmd.lock();
                auto scmds = cmds.lock();
                if (scmd && scmds)
                {
                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );
                    if (i != scmds->end())
                        scmds->erase(i);
                }
''', '''                const auto scmds = cmds.lock();
                if (!scmds) return;
                const auto scmd = cmd.lock();
                if (!scmd) return;
                const auto i = std::find(scmds->begin(), scmds->end(), scmd);
                if (i == scmds->end()) return;
                scmds->erase(i);
'''))
R('z-setenabled', 'C05', C, ('''        virtual void Enable() { enabled = true; }
        virtual void Disable() { enabled = false; }
''', '''        virtual void Enable() { SetEnabled(true); }
        virtual void Disable() { SetEnabled(false); }
'''), ('''    private:
        const std::string name;
        bool enabled;
''', '''    private:
        void SetEnabled(bool on) { enabled = on; }
        const std::string name;
        bool enabled;
'''))
R('z-startswith', 'C13', C, ('''            if (!enabled) return {};
            if (name.rfind(line, 0) == 0) return {name}; // name starts_with line
            return {};
''', '''            std::vector<std::string> result;
            if (enabled && StartsWith(name, line))
                result.push_back(name);
            return result;
'''), ('''    protected:
        const std::string& Name() const''', '''    protected:
        static bool StartsWith(const std::string& text, const std::string& prefix)
        {
            return text.compare(0, prefix.size(), prefix) == 0;
        }
        const std::string& Name() const'''), ('''            if (!IsEnabled()) return {};
            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
            {
                return GetCompletionRecursiveHelper(line, Name());
            }

            return Command::GetCompletionRecursive(line);
        }

    private:''', '''            if (!IsEnabled()) return {};
            return StartsWith(line, Name()) ? GetCompletionRecursiveHelper(line, Name()) : Command::GetCompletionRecursive(line);
        }

    private:'''))
R('z-compl-range', 'C13', C, ('''        std::for_each(cmds->begin(), cmds->end(),
            [&currentLine,&result](const auto& cmd)
            {
                auto c = cmd->GetCompletionRecursive(currentLine);
                result.insert(
                    result.end(),
                    std::make_move_iterator(c.begin()),
                    std::make_move_iterator(c.end())
                );
            }
        );
''', '''        for (const auto& cmd: *cmds)
            for (auto& completion: cmd->GetCompletionRecursive(currentLine))
                result.push_back(std::move(completion));
'''))
R('z-compl-append', 'C13', C, ('''        std::for_each(cmds->begin(), cmds->end(),
            [&currentLine,&result](const auto& cmd)
            {
                auto c = cmd->GetCompletionRecursive(currentLine);
                result.insert(
                    result.end(),
                    std::make_move_iterator(c.begin()),
                    std::make_move_iterator(c.end())
                );
            }
        );
''', '''        for (std::size_t i = 0; i < cmds->size(); ++i)
        {
            const auto c = (*cmds)[i]->GetCompletionRecursive(currentLine);
            std::copy(c.begin(), c.end(), std::back_inserter(result));
        }
'''))
R('z-compl-erase', 'C13', C, ('''        auto ip = std::unique(v1.begin(), v1.end());
        v1.resize(static_cast<std::size_t>(std::distance(v1.begin(), ip)));

        return v1;
''', '''        v1.erase(std::unique(v1.begin(), v1.end()), v1.end());
        return v1;
'''))
R('z-compl-order', 'C13', C, ('''        auto v1 = globalScopeMenu->GetCompletions(currentLine);
        auto v3 = current->GetCompletions(currentLine);
        v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
''', '''        auto v1 = current->GetCompletions(currentLine);
        const auto global = globalScopeMenu->GetCompletions(currentLine);
        v1.reserve(v1.size() + global.size());
        for (const auto& c: global)
            v1.push_back(c);
'''))
R('z-compl-parent', 'C13', C, ('''            if (!IsEnabled()) return {};
            auto result = cli::GetCompletions(cmds, currentLine);
            if (parent != nullptr)
            {
                auto c = parent->GetCompletionWithParent(currentLine);
                result.insert(result.end(), std::make_move_iterator(c.begin()), std::make_move_iterator(c.end()));
            }
            return result;
''', '''            std::vector<std::string> result;
            if (!IsEnabled()) return result;
            result = cli::GetCompletions(cmds, currentLine);
            if (!parent) return result;
            const auto c = parent->GetCompletionWithParent(currentLine);
            result.insert(result.end(), c.begin(), c.end());
            return result;
'''))
R('z-comprec-lambda', 'C13', C, ('''            for (const auto& cmd: *cmds)
            {
                auto cs = cmd->GetCompletionRecursive(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            if (parent != nullptr)
            {
                auto cs = parent->GetCompletionWithParent(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            return result;
''', '''            const auto append = [&](const std::vector<std::string>& cs)
            {
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            };
            for (const auto& cmd: *cmds)
                append(cmd->GetCompletionRecursive(rest));
            if (parent)
                append(parent->GetCompletionWithParent(rest));
            return result;
'''))
R('z-comprec-trim', 'C13', C, ('''            auto rest = line;
            rest.erase(0, prefix.size());
            // trim_left(rest);
            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
            std::vector<std::string> result;
''', '''            std::size_t start = prefix.size();
            while (start < line.size() && std::isspace(line[start]))
                ++start;
            const std::string rest = line.substr(start);
            std::vector<std::string> result;
'''))
R('z-trim-shared', 'C13', C, ('''            auto rest = line;
            rest.erase(0, prefix.size());
            // trim_left(rest);
            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
            std::vector<std::string> result;
''', '''            const auto rest = TrimLeft(line.substr(prefix.size()));
            std::vector<std::string> result;
'''), ('''        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
''', '''        currentLine = TrimLeft(std::move(currentLine));
'''), ('''    inline std::vector<std::string> GetCompletions(
        const std::shared_ptr<''', '''    inline std::string TrimLeft(std::string text)
    {
        std::size_t i = 0;
        for (; i < text.size(); ++i)
            if (!std::isspace(text[i])) break;
        text.erase(0, i);
        return text;
    }

    inline std::vector<std::string> GetCompletions(
        const std::shared_ptr<'''))
R('z-handle-names', 'C04', C, ('''            if (std::find(cmdNames.begin(), cmdNames.end(), cmdLine[0]) != cmdNames.end())
            {
                if (cmdLine.size() == 1)
                {
                    session.Current(this);
                    return true;
                }
                else
                {
                    // check also for subcommands
                    std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
                    return (parent && parent->ExecParent(subCmdLine, session));
                }
            }
            return false;
''', '''            const auto& word = cmdLine.front();
            bool named = false;
            for (const auto& n: cmdNames)
                if (n == word) named = true;
            if (!named) return false;
            if (cmdLine.size() > 1)
                return ScanCmds({cmdLine.begin() + 1, cmdLine.end()}, session);
            session.Current(this);
            return true;
'''))
R('z-handle-offer', 'C04', C, ('''                    std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
                    return (parent && parent->ExecParent(subCmdLine, session));
''', '''                    auto subCmdLine = cmdLine;
                    subCmdLine.erase(subCmdLine.begin());
                    return Offer(subCmdLine, session);
'''), ('''            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert(!cmdLine.empty());
            return (parent && parent->ExecParent(cmdLine, session));
''', '''            return Offer(cmdLine, session);
'''), ('''        std::vector<std::string> GetCompletionRecursiveHelper(''', '''
        bool Offer(const std::vector<std::string>& cmdLine, CliSession& session)
        {
            const auto entries = *cmds; // the handlers can add and remove commands
            const auto i = std::find_if(entries.begin(), entries.end(), [&](const std::shared_ptr<Command>& cmd) { return cmd->Exec(cmdLine, session); });
            if (i != entries.end()) return true;
            return parent != nullptr && parent->ExecParent(cmdLine, session);
        }

        std::vector<std::string> GetCompletionRecursiveHelper('''))
R('z-exec-direct', 'C04', C, ('''            return HandleCommand({Name()}, cmdLine, session);
''', '''            return HandleCommand(std::vector<std::string>(1, Name()), cmdLine, session);
'''), ('''            return HandleCommand({Name(), ParentShortcut()}, cmdLine, session);
''', '''            std::vector<std::string> names;
            names.push_back(Name());
            names.push_back(ParentShortcut());
            return HandleCommand(names, cmdLine, session);
'''))
R('z-feed-split', 'C04 C06', C, ('''        try
        {
            // global cmds check
            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong command handler if not found
                cli.WrongCommandHandler(out, cmd);
        }
''', '''        try
        {
            if (globalScopeMenu->ScanCmds(strs, *this)) return;
            if (current->ScanCmds(strs, *this)) return;
            cli.WrongCommandHandler(out, cmd);
        }
'''))
R('z-feed-exec', 'C04 C06', C, ('''            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong command handler if not found
                cli.WrongCommandHandler(out, cmd);
''', '''            const bool found = Dispatch(strs);
            if (!found) // wrong command handler if not found
                cli.WrongCommandHandler(out, cmd);
'''), ('''        void ShowHistory() const''', '''        bool Dispatch(const std::vector<std::string>& words);

        void ShowHistory() const'''), ('''    inline void CliSession::Prompt()
''', '''    inline bool CliSession::Dispatch(const std::vector<std::string>& words)
    {
        return globalScopeMenu->ScanCmds(words, *this) || current->ScanCmds(words, *this);
    }

    inline void CliSession::Prompt()
'''))
R('z-help-desc', 'C21', C, ('''            if (!IsEnabled()) return;
            out << " - " << Name();
            if (parameterDesc.empty())
                PrintDesc<Args...>::Dump(out);
            for (auto& s: parameterDesc)
                out << " <" << s << '>';
            out << "\\n\\t" << description << "\\n";
''', '''            if (!IsEnabled()) return;
            out << " - " << Name();
            if (!parameterDesc.empty())
                for (std::size_t i = 0; i < parameterDesc.size(); ++i)
                    out << " <" << parameterDesc[i] << ">";
            else
                PrintDesc<Args...>::Dump(out);
            out << '\\n' << '\\t' << description << '\\n';
'''))
R('z-exec-early', 'C03', C, ('''            if (!IsEnabled()) return false;
            const std::size_t paramSize = sizeof...(Args);
            if (cmdLine.size() != paramSize+1) return false;
            if (Name() == cmdLine[0])
            {
                bool invoked = false;
                try
                {
                    auto g = [&](auto ... pars){ invoked = true; func( session.OutStream(), pars... ); };
                    Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                }
                catch (std::bad_cast&)
                {
                    if (invoked) // the exception comes from the handler, not from a parameter conversion
                        throw;
                    return false;
                }
                return true;
            }
            return false;
''', '''            if (!Matches(cmdLine)) return false;
            bool invoked = false;
            try
            {
                auto& out = session.OutStream();
                auto g = [&invoked, &out, this](auto ... pars){ invoked = true; func( out, pars... ); };
                Select<Args...>::Exec(g, cmdLine.begin() + 1, cmdLine.end());
            }
            catch (const std::bad_cast&)
            {
                if (!invoked) return false;
                throw; // the exception comes from the handler, not from a parameter conversion
            }
            return true;
'''), ('''    private:

        const F func;
        const std::string description;
        const std::vector<std::string> parameterDesc;
    };


    template <typename F>
    class FreeformCommand''', '''    private:

        bool Matches(const std::vector<std::string>& cmdLine) const
        {
            return IsEnabled() && cmdLine.size() == 1 + sizeof...(Args) && cmdLine.front() == Name();
        }

        const F func;
        const std::string description;
        const std::vector<std::string> parameterDesc;
    };


    template <typename F>
    class FreeformCommand'''))
R('z-handlers', 'C06 C04', C, ('''            if (exceptionHandler)
                exceptionHandler(out, cmd, e);
            else
                out << e.what() << '\\n';
''', '''            if (!exceptionHandler)
            {
                const std::string message = e.what();
                out << message << '\\n';
                return;
            }
            exceptionHandler(out, cmd, e);
'''))
R('z-prompt', 'C17', C, ('''        if (exit) return;
        out << beforePrompt
            << current->Prompt()
            << afterPrompt
            << "> "
            << std::flush;
''', '''        if (!exit)
        {
            const auto text = current->Prompt() ;
            out << beforePrompt << text << afterPrompt << '>' << ' ';
            out.flush();
        }
'''))
R('z-dtor-lambda', 'C18', C, ('''            coutPtr->Register(out);
            globalScopeMenu->Insert(
                "help",
                [this](std::ostream&){ Help(); },
                "This help message"
            );
''', '''            coutPtr->Register(out);
            const auto help = [this](std::ostream&){ Help(); };
            globalScopeMenu->Insert("help", help, "This help message");
'''))
