S, F, H, T, P, X, FS, VS = 'detail/split.h', 'detail/fromstring.h', 'detail/history.h', 'detail/terminal.h', 'detail/commandprocessor.h', 'detail/commonprefix.h', 'filehistorystorage.h', 'volatilehistorystorage.h'
def mk(kind):
    def f(id, props, fl, *edits, **k): return dict(id=id, props=props.split(), kind=kind, edits=[(fl, a, b) for a, b in edits], **k)
    return f
B, R = mk('bug'), mk('ref')
TRIALS = [
 B('s-escape-prev', 'C01', S, ('            prev_state = State::word;\n', '            prev_state = State::space;\n')),
 B('s-sentence-word', 'C01', S, ('                state = State::space;\n            else', '                state = State::word;\n            else')),
 B('s-bang', 'C01', S, ('''            splitResult.emplace_back(1, c);
            state = State::space;
        }
        else if (c == '"' ''', '''            splitResult.emplace_back(1, c);
        }
        else if (c == '"' ''')),
 B('s-escape-nl', 'C01', S, ('''if (c != '"' && c != '\\'' && c != '\\\\')''', '''if (c != '"' && c != '\\'' && c != '\\\\' && c != '\\n')''')),
 B('s-noremove', 'C01', S, ('return s.empty(); }', 'return s.size() == 1 && s[0] == 0; }')),
 B('s-reset', 'C01', S, ('        sentence_type = ( c == \'"\' ?', '        if (splitResult.empty()) sentence_type = ( c == \'"\' ?')),
 B('f-isdigit', 'C02', F, ('if (!std::isdigit(c))', 'if (c != \'.\' && !std::isdigit(c))')),
 B('f-neg', 'C02', F, ('        s = s.substr(1);\n        const U val', '        s = s.substr(s.size() > 2 && s[1] == \'+\' ? 2 : 1);\n        const U val')),
 B('f-plusneg', 'C02', F, ('''    if (s[0] == '+')
    {
        s = s.substr(1);
    }
    return''', '''    while (!s.empty() && s[0] == '+')
    {
        s = s.substr(1);
    }
    return''')),
 B('f-bool', 'C02', F, ('if (value == 1) return true;', 'if (value != 0) return true;')),
 B('f-char', 'C02', F, ('if (s.size() != 1) throw', 'if (s.empty() || s.size() > 2) throw')),
 B('f-ovf', 'C02', F, ('(tmp < result)', '(tmp + 1 < result)'), ('result != ((tmp-digit)/10) ||', '')),
 B('h-dup-any', 'C07', H, ('if (buffer.empty() || buffer[0] != item)', 'if (std::find(buffer.begin(), buffer.end(), item) == buffer.end())')),
 B('h-prev-store', 'C08', H, ('            buffer[current] = line;\n', '            if (current == 0) buffer[current] = line;\n')),
 B('h-prev-skip', 'C08', H, ('if (current != buffer.size()-1)', 'if (current + 2 < buffer.size())')),
 B('h-next', 'C08', H, ('if (buffer.empty() || current == 0)', 'if (buffer.empty() || current <= 1)')),
 B('h-show', 'C09', H, ('out << IndexToId(j)', 'out << (idOfOldest + i + (mode == Mode::browsing ? 1 : 0))')),
 B('h-getcmd', 'C10', H, ('numCmdsToReturn = std::min(commands, buffer.size()-1);', 'numCmdsToReturn = std::min(commands, buffer.size());\n            if (numCmdsToReturn == buffer.size()) --numCmdsToReturn;\n            else if (commands > 3) --numCmdsToReturn;')),
 B('h-getcmd2', 'C10', H, ('            start = buffer.begin()+1;', '            start = buffer.begin() + (commands < buffer.size() ? 1 : 0);')),
 B('h-load-rev', 'C10 C09', H, ('        for (const auto& c: cmds)\n            Insert(c);', '        for (auto c = cmds.rbegin(); c != cmds.rend(); ++c)\n            Insert(*c);')),
 B('fs-append', 'C10', FS, ('std::ofstream f(fileName, std::ios_base::out);', 'std::ofstream f(fileName, std::ios_base::out | std::ios_base::app);')),
 B('fs-max', 'C10', FS, ('if (commands.size() > maxSize)', 'if (commands.size() > maxSize + 1)')),
 B('fs-emptyline', 'C10', FS, ('commands.push_back(line);', 'if (!line.empty()) commands.push_back(line);')),
 B('fs-tail', 'C10', FS, ('                commands.begin(), \n                commands.begin() + static_cast<dt>(commands.size() - maxSize)', '                commands.begin() + static_cast<dt>(maxSize), \n                commands.end()')),
 B('vs-front', 'C10', VS, ('commands.insert(commands.end(), cmds', 'commands.insert(commands.begin(), cmds')),
 B('vs-max', 'C10', VS, ('commands.begin()+static_cast<dt>(commands.size()-maxSize)', 'commands.begin()+static_cast<dt>(std::min(cmds.size(), commands.size()-maxSize))')),
 B('t-bs-erase', 'C12 C11', T, ("out << std::string(currentLine.size() - position + 1, '\\b') << std::flush;", "out << std::string(currentLine.size() - position, '\\b') << std::flush;")),
 B('t-canc', 'C12', T, ("                // remove last char\n                out << ' ';\n                // go back to the original position\n                out << std::string(currentLine.size() - position, '\\b')", "                // go back to the original position\n                out << std::string(currentLine.size() - position - 1, '\\b')")),
 B('t-setline', 'C12', T, ('if (newLine.size() < currentLine.size())', 'if (newLine.size() + 1 < currentLine.size())')),
 B('t-setline-pos', 'C11', T, ('        position = currentLine.size();\n    }\n\n    std::string GetLine', '        position = std::min(position, currentLine.size());\n    }\n\n    std::string GetLine')),
 B('t-ret', 'C11', T, ('                currentLine.clear();\n                position = 0;', '                currentLine.clear();\n                if (cmd.size() > 1) position = 0;')),
 B('t-insert', 'C11', T, ('                    currentLine.insert(currentLine.begin() + pos, c);', '                    if (static_cast<std::size_t>(pos) < currentLine.size() && c == currentLine[position]) currentLine[position] = c; else\n                    currentLine.insert(currentLine.begin() + pos, c);')),
 B('t-end', 'C12', T, ('<< std::string(currentLine.begin() + pos, currentLine.end())\n                    << afterInput << std::flush;', '<< std::string(currentLine.begin() + pos, currentLine.end() - (currentLine.size() - position > 8 ? 1 : 0))\n                    << afterInput << std::flush;')),
 B('t-eof', 'C11', T, ('return std::make_pair(Symbol::eof, std::string{});', 'if (!currentLine.empty()) break;\n                return std::make_pair(Symbol::eof, std::string{});')),
 B('p-act', 'C14', P, ('                session.Prompt();\n                kb.ActivateInput();', '                kb.ActivateInput();\n                session.Prompt();')),
 B('p-prefix', 'C14', P, ('if (commonPrefix.size() > line.size())', 'if (commonPrefix.size() >= line.size())')),
 B('p-one', 'C14', P, ("terminal.SetLine(completions[0]+' ');", "terminal.SetLine(completions[0] == line ? line : completions[0]+' ');")),
 B('p-tab-noreset', 'C14 C12', P, ('session.Prompt();\n                terminal.ResetCursor();\n                terminal.SetLine( line );', 'session.Prompt();\n                terminal.SetLine( line );')),
 B('p-clear', 'C14', P, ('                terminal.SetLine(currentLine);\n', '                if (!currentLine.empty()) terminal.SetLine(currentLine + "");\n                else session.OutStream() << std::flush << "";\n')),
 B('p-eof', 'C14', P, ('                session.Exit();\n', '                session.Exit();\n                session.Prompt();\n                session.Feed("exit");\n')),
 B('x-min', 'C14', X, ('return s1.size() < s2.size();', 'return s1.size() > s2.size();')),
 B('x-first', 'C14', X, ('if (x[i] != c) return prefix;', 'if (x[i] != c && i + 1 < x.size()) return prefix;')),
 # harmless
 R('rs-isblank', 'C01', S, ('''    void EvalSpace(char c)
    {
        if (c == ' ' || c == '\\t' || c == '\\n')''', '''    static bool IsBlank(char c) { return c == ' ' || c == '\\t' || c == '\\n'; }

    void EvalSpace(char c)
    {
        if (IsBlank(c))'''), ('''    void EvalWord(char c)
    {
        if (c == ' ' || c == '\\t' || c == '\\n')''', '''    void EvalWord(char c)
    {
        if (IsBlank(c))''')),
 R('rs-append', 'C01', S, ('''    void EvalEscape(char c)
    {
        assert(!splitResult.empty());
        if (c != '"' && c != '\\'' && c != '\\\\')
            splitResult.back() += "\\\\";
        splitResult.back() += c;''', '''    void EvalEscape(char c)
    {
        assert(!splitResult.empty());
        std::string& word = splitResult.back();
        const bool special = (c == '"' || c == '\\'' || c == '\\\\');
        if (!special)
            word += '\\\\';
        word.push_back(c);''')),
 R('rs-loop', 'C01', S, ('''        for (char c: input)
            Eval(c);''', '''        for (std::size_t i = 0; i < input.size(); ++i)
            Eval(input[i]);''')),
 R('rs-if', 'C01', S, ('''        switch(state)
        {
            case State::space:
                EvalSpace(c);
                break;
            case State::word:
                EvalWord(c);
                break;
            case State::sentence:
                EvalSentence(c);
                break;
            case State::escape:
                EvalEscape(c);
                break;
        }''', '''        if (state == State::space) EvalSpace(c);
        else if (state == State::word) EvalWord(c);
        else if (state == State::sentence) EvalSentence(c);
        else EvalEscape(c);''')),
 R('rs-remove', 'C01', S, ('''        splitResult.erase(
            std::remove_if(
                splitResult.begin(),
                splitResult.end(),
                [](const std::string& s){ return s.empty(); }
            ),
            splitResult.end()
        );''', '''        auto last = std::remove_if(splitResult.begin(), splitResult.end(), [](const std::string& s){ return s.size() == 0; });
        splitResult.erase(last, splitResult.end());''')),
 R('rs-remove2', 'C01', S, ('''        splitResult.erase(
            std::remove_if(
                splitResult.begin(),
                splitResult.end(),
                [](const std::string& s){ return s.empty(); }
            ),
            splitResult.end()
        );''', '''        std::vector<std::string> kept;
        for (const auto& s: splitResult)
            if (!s.empty())
                kept.push_back(s);
        splitResult = kept;''')),
 R('rf-index', 'C02', F, ('''    for (char c: s)
    {
        if (!std::isdigit(c))''', '''    for (std::size_t i = 0; i < s.size(); ++i)
    {
        const char c = s[i];
        if (!std::isdigit(c))''')),
 R('rf-range', 'C02', F, ('''        if (!std::isdigit(c))''', '''        if (c < '0' || c > '9')''')),
 R('rf-limit', 'C02', F, ('''        const T tmp = (result * 10) + digit;
        if (result != ((tmp-digit)/10) || (tmp < result))
            throw bad_conversion();
        result = tmp;''', '''        const T max = std::numeric_limits<T>::max();
        if (result > max / 10 || (result == max / 10 && digit > max % 10))
            throw bad_conversion();
        result = static_cast<T>(result * 10 + digit);''')),
 R('rf-erase', 'C02', F, ('''    if (s[0] == '+')
    {
        s = s.substr(1);
    }
    return''', '''    if (s.front() == '+')
        s.erase(0, 1);
    return''')),
 R('rf-bool', 'C02', F, ('''    const auto value = detail::signed_from_string<long long int>(s);
    if (value == 1) return true;
    else if (value == 0) return false;
    throw bad_conversion();            ''', '''    switch (detail::signed_from_string<long long int>(s))
    {
        case 0: return false;
        case 1: return true;
        default: throw bad_conversion();
    }''')),
 R('rh-prev', 'C07 C08', H, ('            current = (buffer.size() > 1) ? 1 : 0;', '            current = 0;\n            if (buffer.size() > 1)\n                current = 1;')),
 R('rh-prev2', 'C07 C08', H, ('            if (current != buffer.size()-1)\n                ++current;', '            current = std::min(current + 1, buffer.size() - 1);')),
 R('rh-next', 'C08', H, ('''        if (buffer.empty() || current == 0)
            return {};
        assert(current != 0);
        --current;
        assert(current < buffer.size());
        return buffer[current];''', '''        if (current == 0)
            return std::string();
        return buffer[--current];''')),
 R('rh-show', 'C09', H, ('''        for (std::size_t i = 0; i < size; ++i)
        {
            const auto j = size-1-i;
            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';
        }''', '''        for (auto j = size; j > 0; --j)
            out << IndexToId(j-1) << '\\t' << buffer[j-1] << '\\n';''')),
 R('rh-show2', 'C09', H, ('''        for (std::size_t i = 0; i < size; ++i)
        {
            const auto j = size-1-i;
            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';
        }''', '''        std::size_t id = idOfOldest;
        for (auto i = buffer.rbegin(); i != buffer.rend(); ++i)
            out << id++ << '\\t' << *i << '\\n';''')),
 R('rh-getcmd', 'C10', H, ('''        std::vector<std::string> result(numCmdsToReturn);
''', '''        std::vector<std::string> result;
        result.resize(numCmdsToReturn);
''')),
 R('rh-getcmd2', 'C10', H, ('''        std::vector<std::string> result(numCmdsToReturn);
        assert(std::distance(start, buffer.end()) >= 0);
        assert(numCmdsToReturn <= static_cast<std::size_t>(std::distance(buffer.end(), start)));
        assert(numCmdsToReturn <= static_cast<unsigned long>(std::numeric_limits<long>::max()));
        std::reverse_copy(start, start+static_cast<long>(numCmdsToReturn), result.begin());
''', '''        std::vector<std::string> result;
        const std::size_t first = (mode == Mode::browsing) ? 1 : 0;
        for (std::size_t i = numCmdsToReturn; i > 0; --i)
            result.push_back(buffer[first + i - 1]);
        static_cast<void>(start);
''')),
 R('rh-insert', 'C07', H, ('''        buffer.emplace_front(item);
        evicted = buffer.size() > maxSize;
        if (evicted)
        {''', '''        buffer.push_front(item);
        evicted = false;
        if (buffer.size() > maxSize)
        {
            evicted = true;''')),
 R('rh-new', 'C07 C08', H, ('''        if (mode == Mode::browsing)
        {
            assert(!buffer.empty());
            if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
            {
                buffer.pop_front();
                UndoEviction();
            }
            else // the item was not identical
            {
                buffer[current] = item;
                ++commands;
                latestRecorded = true;
            }
        }
        else // Mode::inserting
        {
            if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
            {
                Insert(item);
                ++commands;
                latestRecorded = !buffer.empty();
            }
        }
        mode = Mode::inserting;
    }
''', '''        if (mode == Mode::browsing)
            ReplaceEditLine(item);
        else if (buffer.empty() || buffer.front() != item)
        {
            Insert(item);
            ++commands;
            latestRecorded = !buffer.empty();
        }
        mode = Mode::inserting;
    }

    void ReplaceEditLine(const std::string& item)
    {
        if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
        {
            buffer.pop_front();
            UndoEviction();
            return;
        }
        buffer.front() = item;
        ++commands;
        latestRecorded = true;
    }
''')),
 R('rfs-copy', 'C10', FS, ('''        auto commands = Commands();
        commands.insert(commands.end(), cmds.begin(), cmds.end());''', '''        std::vector<std::string> commands = Commands();
        for (const auto& c: cmds)
            commands.push_back(c);''')),
 R('rfs-skip', 'C10', FS, ('''        if (commands.size() > maxSize)
            commands.erase(
                commands.begin(), 
                commands.begin() + static_cast<dt>(commands.size() - maxSize)
            );
        std::ofstream f(fileName, std::ios_base::out);
            for (const auto& line: commands)
                f << line << '\\n';''', '''        const dt excess = commands.size() > maxSize ? static_cast<dt>(commands.size() - maxSize) : 0;
        std::ofstream f(fileName, std::ios_base::out);
        for (auto line = commands.begin() + excess; line != commands.end(); ++line)
            f << *line << '\\n';''')),
 R('rvs-pop', 'C10', VS, ('''            using dt = std::deque<std::string>::difference_type;
            commands.insert(commands.end(), cmds.begin(), cmds.end());
            if (commands.size() > maxSize)
                commands.erase(
                    commands.begin(),
                    commands.begin()+static_cast<dt>(commands.size()-maxSize)
                );''', '''            commands.insert(commands.end(), cmds.begin(), cmds.end());
            while (commands.size() > maxSize)
                commands.pop_front();''')),
 R('rfs-read', 'C10', FS, ('''        if (in)
        {
            std::string line;
            while (std::getline(in, line))
                commands.push_back(line);
        }''', '''        std::string line;
        while (std::getline(in, line))
            commands.push_back(line);''')),
 R('rt-back', 'C11 C12', T, ('''                --position;

                const auto pos = static_cast<std::string::difference_type>(position);
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);
                // go back to the previous char
                out << '\\b';
                // output the rest of the line
                out << std::string(currentLine.begin() + pos, currentLine.end());''', '''                --position;

                // remove the char from buffer
                currentLine.erase(position, 1);
                // go back to the previous char, output the rest of the line
                out << '\\b' << currentLine.substr(position);''')),
 R('rt-helper', 'C11 C12', T, ('''    std::string GetLine() const { return currentLine; }
''', '''    std::string GetLine() const { return currentLine; }

    void Back(std::size_t n) const { out << std::string(n, '\\b') << std::flush; }
'''), ('''                out << std::string(currentLine.size() - position + 1, '\\b') << std::flush;''', '''                Back(currentLine.size() - position + 1);'''), ('''                out << std::string(position, '\\b') << std::flush;
                position = 0;''', '''                Back(position);
                position = 0;''')),
 R('rt-ret', 'C11', T, ('''                auto cmd = currentLine;
                currentLine.clear();
                position = 0;
                return std::make_pair(Symbol::command, cmd);''', '''                std::string cmd;
                cmd.swap(currentLine);
                position = 0;
                return {Symbol::command, cmd};''')),
 R('rt-setline', 'C11 C12', T, ('''        if (newLine.size() < currentLine.size())
        {
            out << std::string(currentLine.size() - newLine.size(), ' ');
            // and go back
            out << std::string(currentLine.size() - newLine.size(), '\\b') << std::flush;
        }''', '''        const auto oldSize = currentLine.size();
        if (oldSize > newLine.size())
        {
            const auto n = oldSize - newLine.size();
            out << std::string(n, ' ') << std::string(n, '\\b');
            out.flush();
        }''')),
 R('rt-ascii', 'C11 C12', T, ('''                    // output the new char:
                    out << beforeInput << c;
                    // and the rest of the string:
                    out << std::string(currentLine.begin() + pos, currentLine.end())
                        << afterInput;

                    // go back to the original position
                    out << std::string(currentLine.size() - position, '\\b') << std::flush;

                    // update the buffer and cursor position:
                    currentLine.insert(currentLine.begin() + pos, c);
                    ++position;''', '''                    // update the buffer
                    currentLine.insert(currentLine.begin() + pos, c);

                    // output the new char and the rest of the string:
                    out << beforeInput << currentLine.substr(position) << afterInput;
                    ++position;

                    // go back to the new position
                    out << std::string(currentLine.size() - position, '\\b') << std::flush;''')),
 R('rp-tab', 'C14', P, ('''            case Symbol::tab:
            {
                auto line = terminal.GetLine();
                auto completions = session.GetCompletions(line);
''', '''            case Symbol::tab:
            {
                const auto line = terminal.GetLine();
                const auto completions = session.GetCompletions(line);
'''), ('''std::for_each( completions.begin(), completions.end(), [&items](auto& cmd){ items += '\\t' + cmd; } );''', '''for (const auto& cmd: completions)
                    items += '\\t' + cmd;''')),
 R('rp-redraw', 'C14', P, ('''                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine( line );''', '''                Redraw(line);'''), ('''                session.Prompt();
                terminal.ResetCursor();
                terminal.SetLine(currentLine);''', '''                Redraw(currentLine);'''), ('''    CliSession& session;
    Terminal''', '''    void Redraw(const std::string& line)
    {
        session.Prompt();
        terminal.ResetCursor();
        terminal.SetLine(line);
    }

    CliSession& session;
    Terminal''')),
 R('rp-keypressed', 'C14', P, ('''        const std::pair<Symbol,std::string> s = terminal.Keypressed(k);
        NewCommand(s);''', '''        NewCommand(terminal.Keypressed(k));''')),
 R('rp-size', 'C14', P, ('''                if (completions.empty())
                    break;
                if (completions.size() == 1)
                {
                    terminal.SetLine(completions[0]+' ');
                    break;
                }
''', '''                const auto n = completions.size();
                if (n == 0) break;
                if (n == 1)
                {
                    terminal.SetLine(completions.front() + " ");
                    break;
                }
''')),
 R('rx-allof', 'C14', X, ('''        for (auto& x: v)
            if (x[i] != c) return prefix;''', '''        const bool same = std::all_of(v.begin(), v.end(), [&](const std::string& x){ return x[i] == c; });
        if (!same) return prefix;''')),
 R('rx-while', 'C14', X, ('''    for (std::size_t i = 0; i < smin->size(); ++i)
    {''', '''    const std::size_t n = smin->size();
    for (std::size_t i = 0; i != n; i++)
    {''')),
]
