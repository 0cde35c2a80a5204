C = 'cli.h'
def B(id, props, *edits, **k): return dict(id=id, props=props.split(), kind='bug', edits=[(C, a, b) for a, b in edits], **k)
def R(id, props, *edits, **k): return dict(id=id, props=props.split(), kind='ref', edits=[(C, a, b) for a, b in edits], **k)
TRIALS = [
 B('xsputn-stop', 'C18', ('os->rdbuf()->sputn(s, n);', '{ if (os->rdbuf()->sputn(s, n) != n) break; }')),
 B('xsputn-write', 'C18', ('os->rdbuf()->sputn(s, n);', 'if (n > 0) os->rdbuf()->sputn(s, std::min<std::streamsize>(n, 1024));')),
 B('exit-late', 'C17', ('exit = true; // prevent the prompt to be shown\n', '\n'), ('            auto cmds = history.GetCommands();\n', '            exit = true; // prevent the prompt to be shown\n            auto cmds = history.GetCommands();\n')),
 B('enter-order', 'C17', ('            cli.EnterAction(out);\n\n            if (enterAction)\n                enterAction(out);', '            if (enterAction)\n                enterAction(out);\n            cli.EnterAction(out);')),
 B('exit-root-only', 'C17', ('            cli.ExitAction(out);\n', '            else\n            cli.ExitAction(out);\n')),
 B('remove-tail', 'C05', ('scmds->erase(i);', 'scmds->erase(i, scmds->end());')),
 B('compl-full-name', 'C13', ('if (name.rfind(line, 0) == 0) return {name};', 'if (line.size() < name.size() && name.rfind(line, 0) == 0) return {name};')),
 B('sub-scans-parent', 'C04', ('return (parent && parent->ExecParent(subCmdLine, session));', 'return (parent && parent->ScanCmds(subCmdLine, session));')),
 B('sub-parent-exec', 'C04', ('return (parent && parent->ExecParent(subCmdLine, session));', 'return (parent && parent->Exec(subCmdLine, session));')),
 B('unknown-forget', 'C06', ('        catch(...)\n        {\n            out << "Cli.', '        catch(...)\n        {\n            history.ForgetLatest();\n            out << "Cli.')),
 B('exc-root', 'C06 C04', ('            cli.StdExceptionHandler(out, cmd, e);', '            current = cli.RootMenu();\n            cli.StdExceptionHandler(out, cmd, e);')),
 B('abbrev', 'C03 C04', ('            if (Name() == cmdLine[0])\n            {\n                bool', '            if (Name().compare(0, cmdLine[0].size(), cmdLine[0]) == 0)\n            {\n                bool')),
 B('case-insens', 'C03', ('            if (Name() == cmdLine[0])\n            {\n                func', '            if (Name() == cmdLine[0] || (cmdLine.size() > 1 && Name() == cmdLine[1]))\n            {\n                func')),
 B('help-desc', 'C21', ('            if (parameterDesc.empty())\n                PrintDesc<Args...>', '            if (parameterDesc.size() < sizeof...(Args))\n                PrintDesc<Args...>')),
 B('unique-nosort', 'C13', ('        std::sort(v1.begin(), v1.end());\n', '')),
 B('trim-blank', 'C13', ('currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));', 'currentLine.erase(0, currentLine.find_first_not_of(\' \') == std::string::npos ? 0 : currentLine.find_first_not_of(\' \'));')),
 B('help-order', 'C21', ('        globalScopeMenu->MainHelp(out);\n        current -> MainHelp( out );', '        current -> MainHelp( out );\n        globalScopeMenu->MainHelp(out);')),
 B('feed-global-last', 'C04', ('bool found = globalScopeMenu->ScanCmds(strs, *this);', 'bool found = current->ScanCmds(strs, *this);'), ('if (!found) found = current->ScanCmds(strs, *this);', 'if (!found) found = globalScopeMenu->ScanCmds(strs, *this);')),
 B('feed-root-fallback', 'C04', ('if (!found) found = current->ScanCmds(strs, *this);', 'if (!found) found = current->ScanCmds(strs, *this);\n            if (!found && strs.size() > 1) found = cli.RootMenu()->ScanCmds(strs, *this);')),
 B('feed-hist-found', 'C07 C06 C09', ('        history.NewCommand(cmd); // add anyway to history\n', '        if (strs[0] != "!") history.NewCommand(cmd); // add anyway to history\n')),
 B('wrong-twice', 'C04', ('                cli.WrongCommandHandler(out, cmd);', '                cli.WrongCommandHandler(out, strs[0]);')),
 B('menu-parent', 'C04', ('smenu->parent = this;', 'smenu->parent = parent ? parent : this;')),
 B('insert-front', 'C04 C21', ('            cmds->push_back(smenu);', '            cmds->insert(cmds->begin(), smenu);')),
 B('disable-menu-deep', 'C05', ('        virtual void Disable() { enabled = false; }', '        virtual void Disable() { enabled = !enabled; }')),
 B('helper-prefix', 'C13', ('result.push_back(prefix + \' \' + c); // concat submenu with command\n            }\n            return result;', 'result.push_back(Name() + \' \' + c); // concat submenu with command\n            }\n            return result;')),
 B('prompt-exit', 'C17', ('        if (exit) return;\n        out << beforePrompt', '        if (exit && current == cli.RootMenu()) return;\n        out << beforePrompt')),
 B('dtor', 'C18', ('        coutPtr->UnRegister(out);', '        if (!exit) coutPtr->UnRegister(out);')),
 # harmless
 R('r-find-handle', 'C04 C05', ('if (std::find(cmdNames.begin(), cmdNames.end(), cmdLine[0]) != cmdNames.end())', 'bool named = false;\n            for (const auto& n: cmdNames)\n                if (n == cmdLine[0]) { named = true; break; }\n            if (named)')),
 R('r-handle-early', 'C04', ('''                if (cmdLine.size() == 1)
                {
                    session.Current(this);
                    return true;
                }
                else
                {
''', '''                if (cmdLine.size() < 2)
                {
                    session.Current(this);
                    return true;
                }
                {
''')),
 R('r-scan-index', 'C04 C06', ('''            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert''', '''            for (std::size_t i = 0; i != entries.size(); ++i)
            {
                Command& cmd = *entries[i];
                if (cmd.Exec(cmdLine, session))
                    return true;
            }
            assert''')),
 R('r-scan-anyof', 'C04', ('''            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert''', '''            if (std::any_of(entries.begin(), entries.end(), [&](const auto& cmd){ return cmd->Exec(cmdLine, session); }))
                return true;
            assert''')),
 R('r-try-helper', 'C04 C06', ('''        bool ScanCmds(const std''', '''        static bool TryAll(const std::vector<std::shared_ptr<Command>>& entries, const std::vector<std::string>& cmdLine, CliSession& session)
        {
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            return false;
        }

        bool ScanCmds(const std'''), ('''            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert''', '''            if (TryAll(entries, cmdLine, session)) return true;
            assert'''), ('''                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
''', '''                    if (TryAll(entries, subCmdLine, session)) return true;
''')),
 R('r-feed-or', 'C04 C06 C09', ('''            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong''', '''            if (!globalScopeMenu->ScanCmds(strs, *this) && !current->ScanCmds(strs, *this)) // wrong''')),
 R('r-feed-helper', 'C04 C06 C09', ('        void Help() const;\n\n', '        void Help() const;\n\n        bool Dispatch(const std::vector<std::string>& words);\n\n'), ('''    inline void CliSession::Feed(''', '''    inline bool CliSession::Dispatch(const std::vector<std::string>& words)
    {
        if (globalScopeMenu->ScanCmds(words, *this)) return true;
        return current->ScanCmds(words, *this);
    }

    inline void CliSession::Feed('''), ('''            bool found = globalScopeMenu->ScanCmds(strs, *this);

            // root menu recursive cmds check
            if (!found) found = current->ScanCmds(strs, *this);

            if (!found) // wrong''', '''            if (!Dispatch(strs)) // wrong''')),
 R('r-xsputn-index', 'C18', ('            for (auto os: ostreams)\n                os->rdbuf()->sputn(s, n);', '            for (std::size_t i = 0; i < ostreams.size(); ++i)\n                ostreams[i]->rdbuf()->sputn(s, n);')),
 R('r-xsputn-foreach', 'C18', ('            for (auto os: ostreams)\n                os->rdbuf()->sputn(s, n);', '            std::for_each(ostreams.begin(), ostreams.end(), [&](std::ostream* os){ os->rdbuf()->sputn(s, n); });')),
 R('r-unreg-loop', 'C18', ('''            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
            if (i != ostreams.end())
                ostreams.erase(i);''', '''            for (auto i = ostreams.begin(); i != ostreams.end(); ++i)
                if (*i == &o)
                {
                    ostreams.erase(i);
                    return;
                }''')),
 R('r-exit-inline', 'C17 C10', ('''            auto cmds = history.GetCommands();
            cli.StoreCommands(cmds);''', '''            cli.StoreCommands(history.GetCommands());''')),
 R('r-exit-helper', 'C17 C10', ('''            auto cmds = history.GetCommands();
            cli.StoreCommands(cmds);
        }
''', '''            SaveHistory();
        }

        void SaveHistory()
        {
            const std::vector<std::string> cmds = history.GetCommands();
            cli.StoreCommands(cmds);
        }
''')),
 R('r-remove-loop', 'C05', ('''                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );
                    if (i != scmds->end())
                        scmds->erase(i);''', '''                    for (auto i = scmds->begin(); i != scmds->end(); ++i)
                    {
                        if (*i == scmd)
                        {
                            scmds->erase(i);
                            break;
                        }
                    }''')),
 R('r-remove-find', 'C05', ('''                    auto i = std::find_if(
                        scmds->begin(),
                        scmds->end(),
                        [&](const auto& c){ return c.get() == scmd.get(); }
                    );''', '''                    auto i = std::find(scmds->begin(), scmds->end(), scmd);''')),
 R('r-remove-early', 'C05', ('''                if (scmd && scmds)
                {
                    auto i''', '''                if (!scmd || !scmds) return;
                {
                    auto i''')),
 R('r-compl-compare', 'C13', ('if (name.rfind(line, 0) == 0) return {name};', 'if (name.compare(0, line.size(), line) == 0) return {name};')),
 R('r-compl-rangefor', 'C13', ('''        std::for_each(cmds->begin(), cmds->end(),
            [&currentLine,&result](const auto& cmd)
            {
                auto c = cmd->GetCompletionRecursive(currentLine);
                result.insert(
                    result.end(),
                    std::make_move_iterator(c.begin()),
                    std::make_move_iterator(c.end())
                );
            }
        );''', '''        for (const auto& cmd: *cmds)
        {
            const auto c = cmd->GetCompletionRecursive(currentLine);
            for (const auto& s: c)
                result.push_back(s);
        }''')),
 R('r-compl-helper', 'C13', ('''            std::vector<std::string> result;
            for (const auto& cmd: *cmds)
            {
                auto cs = cmd->GetCompletionRecursive(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            if (parent != nullptr)
            {
                auto cs = parent->GetCompletionWithParent(rest);
                for (const auto& c: cs)
                    result.push_back(prefix + ' ' + c); // concat submenu with command
            }
            return result;
        }
''', '''            std::vector<std::string> result;
            for (const auto& cmd: *cmds)
                AddPrefixed(result, prefix, cmd->GetCompletionRecursive(rest));
            if (parent != nullptr)
                AddPrefixed(result, prefix, parent->GetCompletionWithParent(rest));
            return result;
        }

        static void AddPrefixed(std::vector<std::string>& result, const std::string& prefix, const std::vector<std::string>& cs)
        {
            for (const auto& c: cs)
                result.push_back(prefix + ' ' + c); // concat submenu with command
        }
''')),
 R('r-compl-erase', 'C13', ('        v1.resize(static_cast<std::size_t>(std::distance(v1.begin(), ip)));', '        v1.erase(ip, v1.end());')),
 R('r-exec-variadic', 'C03', ('''            if (cmdLine.size() != paramSize+1) return false;
            if (Name() == cmdLine[0])
            {''', '''            const bool match = cmdLine.size() == paramSize+1 && cmdLine.front() == Name();
            if (match)
            {''')),
 R('r-exec-free', 'C03', ('''                func(session.OutStream(), std::vector<std::string>(std::next(cmdLine.begin()), cmdLine.end()));
                return true;''', '''                const std::vector<std::string> args(cmdLine.begin() + 1, cmdLine.end());
                func(session.OutStream(), args);
                return true;''')),
 R('r-help-split', 'C21', ('''            if (!IsEnabled()) return;
            for (const auto& cmd: *cmds)
                cmd->Help(out);
            if (parent != nullptr)
                parent->Help(out);''', '''            if (IsEnabled())
            {
                for (auto i = cmds->begin(); i != cmds->end(); ++i)
                    (*i)->Help(out);
                if (parent)
                    parent->Help(out);
            }''')),
 R('r-help-out', 'C21', ('out << " - " << Name() << "\\n\\t" << description << "\\n";', 'out << " - " << Name();\n            out << "\\n\\t";\n            out << description << \'\\n\';')),
 R('r-insert-move', 'C05 C04', ('''            CmdHandler c(scmd, cmds);
            cmds->push_back(scmd);
            return c;''', '''            cmds->push_back(scmd);
            return CmdHandler(scmd, cmds);''')),
 R('r-execfrom', 'C09', ('''            const auto cmd = history.At(index);
            if (std::find''', '''            const std::string cmd{ history.At(index) };
            if (std::count'''), ('index) != fromHistory.end())', 'index) > 0)')),
 R('r-insert-order', 'C05 C04', ('''            smenu->parent = this;
            cmds->push_back(smenu);''', '''            cmds->push_back(smenu);
            smenu->parent = this;''')),
]
