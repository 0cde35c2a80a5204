"""Trials: larger behaviour-preserving edits (helpers, loop forms, reordered members and statements)."""
C = 'cli.h'
def mk(kind):
    def f(id, props, fl, *edits, **k): return dict(id=id, props=props.split(), kind=kind, edits=[(fl, a, b) for a, b in edits], **k)
    return f
B, R = mk('bug'), mk('ref')
TRIALS = [
 R('q-first-accept', 'C04 C05 C06', C, ('''            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert(!cmdLine.empty());
            return (parent && parent->ExecParent(cmdLine, session));''', '''            assert(!cmdLine.empty());
            return ExecChildren(cmdLine, session) || ExecInParent(cmdLine, session);'''),
   ('''                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
                    return (parent && parent->ExecParent(subCmdLine, session));''', '''                    if (ExecChildren(subCmdLine, session)) return true;
                    return ExecInParent(subCmdLine, session);'''),
   ('''        static std::string ParentShortcut()
        {''', '''        bool ExecChildren(const std::vector<std::string>& line, CliSession& session) const
        {
            const auto entries = *cmds;
            for (auto it = entries.begin(); it != entries.end(); ++it)
            {
                const auto& cmd = *it;
                if (cmd->Exec(line, session)) return true;
            }
            return false;
        }

        bool ExecInParent(const std::vector<std::string>& line, CliSession& session) const
        {
            if (parent == nullptr) return false;
            return parent->ExecParent(line, session);
        }

        static std::string ParentShortcut()
        {''')),
 R('q-handle-count', 'C04', C, ('''            if (std::find(cmdNames.begin(), cmdNames.end(), cmdLine[0]) != cmdNames.end())
            {
                if (cmdLine.size() == 1)
                {
                    session.Current(this);
                    return true;
                }
                else
                {''', '''            const auto& word = cmdLine.front();
            const bool mine = std::any_of(cmdNames.begin(), cmdNames.end(), [&word](const std::string& n){ return n == word; });
            if (mine)
            {
                if (cmdLine.size() < 2)
                {
                    session.Current(this);
                    return true;
                }
                {''')),
 R('q-sub-erase', 'C04', C, ('''std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());''', '''auto subCmdLine = cmdLine;
                    subCmdLine.erase(subCmdLine.begin());''')),
 R('q-sub-loop', 'C04', C, ('''std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());''', '''std::vector<std::string> subCmdLine;
                    subCmdLine.reserve(cmdLine.size() - 1);
                    for (std::size_t i = 1; i < cmdLine.size(); ++i)
                        subCmdLine.push_back(cmdLine[i]);''')),
 R('q-two-names', 'C04', C, ('''            return HandleCommand({Name()}, cmdLine, session);''', '''            const std::vector<std::string> names{Name()};
            return HandleCommand(names, cmdLine, session);'''), ('''            return HandleCommand({Name(), ParentShortcut()}, cmdLine, session);''', '''            std::vector<std::string> names;
            names.push_back(Name());
            names.push_back(ParentShortcut());
            return HandleCommand(names, cmdLine, session);''')),
 R('q-feed-helper', 'C04 C06 C09', C, ('''            // global cmds check
            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong command handler if not found
                cli.WrongCommandHandler(out, cmd);''', '''            if (!ScanAll(strs))
                cli.WrongCommandHandler(out, cmd);'''),
   ('''        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;''', '''        bool ScanAll(const std::vector<std::string>& strs);

        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;'''),
   ('''    inline void CliSession::Feed(const std::string& cmd)
    {''', '''    inline bool CliSession::ScanAll(const std::vector<std::string>& strs)
    {
        for (auto* menu: {globalScopeMenu.get(), current})
            if (menu->ScanCmds(strs, *this)) return true;
        return false;
    }

    inline void CliSession::Feed(const std::string& cmd)
    {''')),
 R('q-feed-nested', 'C04 C06 C09', C, ('''        if (strs.empty()) return; // just hit enter

        history.NewCommand(cmd); // add anyway to history
''', '''        if (!strs.empty())
            ExecWords(cmd, strs);
    }

    inline void CliSession::ExecWords(const std::string& cmd, const std::vector<std::string>& strs)
    {
        history.NewCommand(cmd); // add anyway to history
'''), ('''        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;''', '''        void ExecWords(const std::string& cmd, const std::vector<std::string>& strs);

        Cli& cli;
        std::shared_ptr<cli::OutStream> coutPtr;''')),
 R('q-execfrom-guard', 'C09 C07', C, ('''            fromHistory.push_back(index);
            try
            {
                Feed(cmd);
            }
            catch (...)
            {
                fromHistory.pop_back();
                throw;
            }
            fromHistory.pop_back();''', '''            struct Guard
            {
                explicit Guard(std::vector<unsigned>& _v, unsigned i) : v(_v) { v.push_back(i); }
                ~Guard() { v.pop_back(); }
                std::vector<unsigned>& v;
            };
            const Guard guard(fromHistory, index);
            Feed(cmd);''')),
 R('q-execfrom-anyof', 'C09 C07', C, ('''            if (std::find(fromHistory.begin(), fromHistory.end(), index) != fromHistory.end())
                throw std::runtime_error("History entry referring to itself");''', '''            for (const auto running: fromHistory)
                if (running == index)
                    throw std::runtime_error("History entry referring to itself");''')),
 R('q-exit-order', 'C17 C10', C, ('''            auto cmds = history.GetCommands();
            cli.StoreCommands(cmds);
''', '''            cli.StoreCommands(history.GetCommands());
'''), ('''            if (exit) return; // already ended
            exit = true; // prevent the prompt to be shown

            if (exitAction)
                exitAction(out);''', '''            if (!exit)
                Leave();
        }

        void Leave()
        {
            exit = true;
            if (exitAction) exitAction(out);''')),
 R('q-prompt', 'C17', C, ('''        if (exit) return;
        out << beforePrompt
            << current->Prompt()
            << afterPrompt
            << "> "
            << std::flush;''', '''        if (!exit)
        {
            const std::string text = current->Prompt();
            out << beforePrompt << text << afterPrompt;
            out << "> ";
            out.flush();
        }''')),
 R('q-compl-merge', 'C13', C, ('''        v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));

        // removes''', '''        for (auto& c: v3)
            v1.push_back(std::move(c));

        // removes'''), ('''        auto ip = std::unique(v1.begin(), v1.end());
        v1.resize(static_cast<std::size_t>(std::distance(v1.begin(), ip)));
''', '''        v1.erase(std::unique(v1.begin(), v1.end()), v1.end());
''')),
 R('q-compl-trim', 'C13', C, ('''        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
        auto v1 = globalScopeMenu->GetCompletions(currentLine);
        auto v3 = current->GetCompletions(currentLine);''', '''        const auto first = std::find_if_not(currentLine.cbegin(), currentLine.cend(), [](int ch) { return std::isspace(ch); });
        const std::string trimmed(first, currentLine.cend());
        auto v1 = globalScopeMenu->GetCompletions(trimmed);
        auto v3 = current->GetCompletions(trimmed);''')),
 R('q-compl-rec', 'C13', C, ('''            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
            {
                return GetCompletionRecursiveHelper(line, Name());
            }

            if (line.rfind(ParentShortcut(), 0) == 0) // line starts_with ..
            {
                return GetCompletionRecursiveHelper(line, ParentShortcut());
            }

            return Command::GetCompletionRecursive(line);''', '''            for (const auto& prefix: {Name(), ParentShortcut()})
                if (line.compare(0, prefix.size(), prefix) == 0)
                    return GetCompletionRecursiveHelper(line, prefix);
            return Command::GetCompletionRecursive(line);''')),
 R('q-compl-transform', 'C13', C, ('''            for (const auto& cmd: *cmds)
            {
                auto cs = cmd->GetCompletionRecursive(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }''', '''            for (const auto& cmd: *cmds)
            {
                const auto cs = cmd->GetCompletionRecursive(rest);
                std::transform(cs.begin(), cs.end(), std::back_inserter(result), [&prefix](const std::string& c){ return prefix + ' ' + c; });
            }''')),
 R('q-compl-substr', 'C13', C, ('''            auto rest = line;
            rest.erase(0, prefix.size());
            // trim_left(rest);
            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));''', '''            std::size_t start = prefix.size();
            while (start < line.size() && std::isspace(line[start]))
                ++start;
            const std::string rest = line.substr(start);''')),
 R('q-compl-one', 'C13', C, ('''            if (!enabled) return {};
            if (name.rfind(line, 0) == 0) return {name}; // name starts_with line
            return {};''', '''            std::vector<std::string> result;
            if (enabled && name.substr(0, line.size()) == line)
                result.push_back(name);
            return result;''')),
 R('q-menu-help', 'C21', C, ('''            if (!IsEnabled()) return;
            for (const auto& cmd: *cmds)
                cmd->Help(out);
            if (parent != nullptr)
                parent->Help(out);''', '''            if (IsEnabled())
            {
                std::for_each(cmds->begin(), cmds->end(), [&out](const auto& cmd){ cmd->Help(out); });
                if (parent) parent->Help(out);
            }''')),
 R('q-cmd-help', 'C21', C, ('''            out << " - " << Name();
            if (parameterDesc.empty())
                PrintDesc<Args...>::Dump(out);
            for (auto& s: parameterDesc)
                out << " <" << s << '>';
            out << "\\n\\t" << description << "\\n";''', '''            out << " - " << Name();
            if (!parameterDesc.empty())
                for (std::size_t i = 0; i < parameterDesc.size(); ++i)
                    out << ' ' << '<' << parameterDesc[i] << ">";
            else
                PrintDesc<Args...>::Dump(out);
            out << '\\n' << '\\t' << description << '\\n';''')),
 R('q-variadic', 'C03', C, ('''            const std::size_t paramSize = sizeof...(Args);
            if (cmdLine.size() != paramSize+1) return false;
            if (Name() == cmdLine[0])
            {
                bool invoked = false;''', '''            if (cmdLine.size() != sizeof...(Args) + 1 || cmdLine.front() != Name()) return false;
            {
                bool invoked = false;''')),
 R('q-freeform', 'C03', C, ('''            if (Name() == cmdLine[0])
            {
                func(session.OutStream(), std::vector<std::string>(std::next(cmdLine.begin()), cmdLine.end()));
                return true;
            }
            return false;''', '''            if (cmdLine[0] != Name())
                return false;
            std::vector<std::string> args(cmdLine);
            args.erase(args.begin());
            func(session.OutStream(), args);
            return true;''')),
 R('q-insert-both', 'C05 C04', C, ('''            std::shared_ptr<Command> scmd(std::move(cmd));
            CmdHandler c(scmd, cmds);
            cmds->push_back(scmd);
            return c;''', '''            return Add(std::shared_ptr<Command>(std::move(cmd)));'''), ('''            std::shared_ptr<Menu> smenu(std::move(menu));
            CmdHandler c(smenu, cmds);
            smenu->parent = this;
            cmds->push_back(smenu);
            return c;''', '''            menu->parent = this;
            return Add(std::shared_ptr<Command>(std::move(menu)));'''), ('''        static std::string ParentShortcut()
        {''', '''        CmdHandler Add(std::shared_ptr<Command> entry)
        {
            cmds->push_back(entry);
            return CmdHandler(entry, cmds);
        }

        static std::string ParentShortcut()
        {''')),
 R('q-remove-removeif', 'C05', C, ('''                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );
                    if (i != scmds->end())
                        scmds->erase(i);''', '''                    auto i = scmds->begin();
                    while (i != scmds->end() && *i != scmd)
                        ++i;
                    if (i != scmds->end())
                        scmds->erase(i);''')),
 R('q-handler-ifs', 'C05', C, ('''        void Enable() { if (descriptor) descriptor->Enable(); }
        void Disable() { if (descriptor) descriptor->Disable(); }''', '''        void Enable() { Set(true); }
        void Disable() { Set(false); }'''), ('''    private:
        struct Descriptor
        {''', '''    private:
        void Set(bool enable)
        {
            if (!descriptor) return;
            if (enable) descriptor->Enable();
            else descriptor->Disable();
        }
        struct Descriptor
        {''')),
 R('q-enabled-set', 'C05 C03', C, ('''        virtual void Enable() { enabled = true; }
        virtual void Disable() { enabled = false; }''', '''        virtual void Enable() { SetEnabled(true); }
        virtual void Disable() { SetEnabled(false); }'''), ('''    private:
        const std::string name;
        bool enabled;''', '''    private:
        void SetEnabled(bool value) { enabled = value; }
        const std::string name;
        bool enabled;''')),
 R('q-outstream-at', 'C18', C, ('''            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
            if (i != ostreams.end())
                ostreams.erase(i);''', '''            for (std::size_t i = 0; i < ostreams.size(); ++i)
            {
                if (ostreams[i] == &o)
                {
                    ostreams.erase(ostreams.begin() + static_cast<std::ptrdiff_t>(i));
                    break;
                }
            }''')),
 R('q-outstream-put', 'C18', C, ('''            for (auto os: ostreams)
                *os << static_cast<char>(c);
            return c;''', '''            const char ch = static_cast<char>(c);
            xsputn(&ch, 1);
            return c;''')),
 R('q-ctor-addglobal', 'C04 C09', C, ('''            coutPtr->Register(out);
            globalScopeMenu->Insert(
                "help",''', '''            coutPtr->Register(out);
            auto& global = *globalScopeMenu;
            global.Insert(
                "help",''')),
 R('q-ctor-order', 'C04 C17 C18 C10', C, ('''            history.LoadCommands(cli.GetCommands());

            coutPtr->Register(out);
''', '''            coutPtr->Register(out);

            const auto stored = cli.GetCommands();
            history.LoadCommands(stored);

''')),
 R('q-wrong', 'C06', C, ('''            if (wrongCmdHandler)
                wrongCmdHandler(out, cmd);
            else
                out << "wrong command: " << cmd << '\\n';''', '''            if (!wrongCmdHandler)
            {
                out << "wrong command: " << cmd << "\\n";
                return;
            }
            wrongCmdHandler(out, cmd);''')),
 R('q-enter', 'C17', C, ('''            cli.EnterAction(out);

            if (enterAction)
                enterAction(out);''', '''            cli.EnterAction(OutStream());
            if (!enterAction) return;
            enterAction(OutStream());''')),
]
