"""Refactorings (twelfth batch): who keeps a command alive while it is executed."""
TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
C = 'cli.h'
SCAN = '''            const Cmds entries = *cmds; // the handlers can add and remove commands
            for (auto& cmd: entries)
                if (cmd->Exec(cmdLine, session))
                    return true;
'''
SUB = '''                    const Cmds entries = *cmds; // the handlers can add and remove commands
                    for (auto& cmd: entries)
                        if (cmd->Exec( subCmdLine, session )) return true;
'''
P = 'C03 C04 C05 C06'
R('aa-copy-each', P, C, (SCAN, '''            for (std::size_t i = 0; i < cmds->size(); ++i)
            {
                const std::shared_ptr<Command> cmd = (*cmds)[i]; // the handler can remove it
                if (cmd->Exec(cmdLine, session))
                    return true;
            }
'''))
R('aa-copy-auto', P, C, (SCAN, '''            for (auto cmd: *cmds)
                if (cmd->Exec(cmdLine, session))
                    return true;
'''))
R('aa-iter', P, C, (SCAN, '''            const Cmds entries(cmds->begin(), cmds->end());
            for (auto it = entries.begin(); it != entries.end(); ++it)
                if ((*it)->Exec(cmdLine, session))
                    return true;
'''))
R('aa-helper', P, C, (SCAN, '''            if (Offer(*cmds, cmdLine, session))
                return true;
'''), (SUB, '''                    if (Offer(*cmds, subCmdLine, session)) return true;
'''), ('''        static std::string ParentShortcut()
''', '''        // by value: the handlers can add and remove commands
        static bool Offer(std::vector<std::shared_ptr<Command>> entries, const std::vector<std::string>& words, CliSession& session)
        {
            return std::any_of(entries.begin(), entries.end(), [&](const auto& c){ return c->Exec(words, session); });
        }

        static std::string ParentShortcut()
'''))
R('aa-ref-get', P, C, (SUB, '''                    const auto entries = *cmds; // the handlers can add and remove commands
                    for (const auto& cmd: entries)
                    {
                        Command& c = *cmd;
                        if (c.Exec( subCmdLine, session )) return true;
                    }
'''))
R('aa-none-of', P, C, (SUB, '''                    const auto entries = *cmds; // the handlers can add and remove commands
                    const bool none = std::none_of(entries.cbegin(), entries.cend(), [&](const std::shared_ptr<Command>& c){ return c->Exec(subCmdLine, session); });
                    if (!none) return true;
'''))
R('aa-while', P, C, (SCAN, '''            const Cmds entries = *cmds; // the handlers can add and remove commands
            std::size_t i = 0;
            while (i < entries.size() && !entries[i]->Exec(cmdLine, session)) ++i;
            if (i < entries.size()) return true;
'''))
