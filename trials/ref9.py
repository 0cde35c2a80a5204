"""Refactorings (ninth batch): history, terminal, scheduler, keyboard, split, storages."""
TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
H, TM, LS, K, SP, FH, VH = 'detail/history.h', 'detail/terminal.h', 'loopscheduler.h', 'detail/linuxkeyboard.h', 'detail/split.h', 'filehistorystorage.h', 'volatilehistorystorage.h'
NC = '''        current = 0;
        latestRecorded = false;
        if (mode == Mode::browsing)
        {
            assert(!buffer.empty());
            if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
            {
                buffer.pop_front();
                UndoEviction();
            }
            else // the item was not identical
            {
                buffer[current] = item;
                ++commands;
                latestRecorded = true;
            }
        }
        else // Mode::inserting
        {
            if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
            {
                Insert(item);
                ++commands;
                latestRecorded = !buffer.empty();
            }
        }
        mode = Mode::inserting;
'''
R('x-new-split', 'C07 C08', H, (NC, '''        current = 0;
        latestRecorded = (mode == Mode::browsing) ? ReplaceEditLine(item) : AddNew(item);
        mode = Mode::inserting;
'''), ('''    void Insert(const std::string& item)
''', '''    bool ReplaceEditLine(const std::string& item)
    {
        assert(!buffer.empty());
        const bool same = buffer.size() > 1 && buffer[1] == item;
        if (same)
        {
            buffer.pop_front();
            UndoEviction();
            return false;
        }
        buffer.front() = item;
        ++commands;
        return true;
    }

    bool AddNew(const std::string& item)
    {
        if (!buffer.empty() && buffer.front() == item)
            return false;
        Insert(item);
        ++commands;
        return !buffer.empty();
    }

    void Insert(const std::string& item)
'''))
R('x-new-flat', 'C07 C08', H, (NC, '''        const bool browsing = mode == Mode::browsing;
        mode = Mode::inserting;
        current = 0;
        latestRecorded = false;
        if (browsing && buffer.size() > 1 && buffer[1] == item)
        {
            buffer.pop_front();
            UndoEviction();
            return;
        }
        if (browsing)
            buffer[0] = item;
        else if (buffer.empty() || buffer[0] != item)
            Insert(item);
        else
            return;
        ++commands;
        latestRecorded = browsing || !buffer.empty();
'''))
R('x-prev-switch', 'C08', H, ('''        if (mode == Mode::inserting)
        {
            if (maxSize == 0) // nothing is kept, there is nothing to browse
                return line;
            Insert(line);
            latestRecorded = false; // the front of the buffer is now the edit line
            mode = Mode::browsing;
            current = (buffer.size() > 1) ? 1 : 0;
        }
        else // Mode::browsing
        {
            assert(!buffer.empty());
            buffer[current] = line;
            if (current != buffer.size()-1)
                ++current;
        }
''', '''        switch (mode)
        {
            case Mode::inserting:
                if (maxSize == 0) // nothing is kept, there is nothing to browse
                    return line;
                Insert(line);
                latestRecorded = false; // the front of the buffer is now the edit line
                mode = Mode::browsing;
                current = std::min<std::size_t>(1, buffer.size() - 1);
                break;
            case Mode::browsing:
                assert(!buffer.empty());
                buffer[current] = line;
                current = std::min(current + 1, buffer.size() - 1);
                break;
        }
'''))
R('x-next', 'C08', H, ('''        if (buffer.empty() || current == 0)
            return {};
        assert(current != 0);
        --current;
        assert(current < buffer.size());
        return buffer[current];''', '''        std::string result;
        if (!buffer.empty() && current > 0)
        {
            current -= 1;
            result = buffer.at(current);
        }
        return result;'''))
R('x-show-rev', 'C09', H, ('''        const auto size = buffer.size();
        out << '\\n';
        for (std::size_t i = 0; i < size; ++i)
        {
            const auto j = size-1-i;
            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';
        }
        out << '\\n' << std::flush;''', '''        out << '\\n';
        auto id = idOfOldest;
        for (auto i = buffer.rbegin(); i != buffer.rend(); ++i)
        {
            out << id << '\\t' << *i << '\\n';
            ++id;
        }
        out << '\\n' << std::flush;'''))
R('x-show-while', 'C09', H, ('''        const auto size = buffer.size();
        out << '\\n';
        for (std::size_t i = 0; i < size; ++i)
        {
            const auto j = size-1-i;
            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';
        }
        out << '\\n' << std::flush;''', '''        out << '\\n';
        for (std::size_t j = buffer.size(); j-- > 0;)
            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';
        out << '\\n';
        out.flush();'''))
R('x-load-foreach', 'C07', H, ('''        for (const auto& c: cmds)
            Insert(c);
''', '''        std::for_each(cmds.begin(), cmds.end(), [this](const std::string& c){ Insert(c); });
'''))
R('x-get-index', 'C10 C07', H, ('''        auto numCmdsToReturn = std::min(commands, buffer.size());
        auto start = buffer.begin();
        if (mode == Mode::browsing)
        {
            numCmdsToReturn = std::min(commands, buffer.size()-1);
            start = buffer.begin()+1;
        }
        std::vector<std::string> result(numCmdsToReturn);
        assert(std::distance(start, buffer.end()) >= 0);
        assert(numCmdsToReturn <= static_cast<std::size_t>(std::distance(buffer.end(), start)));
        assert(numCmdsToReturn <= static_cast<unsigned long>(std::numeric_limits<long>::max()));
        std::reverse_copy(start, start+static_cast<long>(numCmdsToReturn), result.begin());
        return result;''', '''        // the edit line is not a command
        const std::size_t first = (mode == Mode::browsing) ? 1 : 0;
        const std::size_t count = std::min(commands, buffer.size() - first);
        std::vector<std::string> result;
        result.reserve(count);
        for (std::size_t i = count; i > 0; --i)
            result.push_back(buffer[first + i - 1]);
        return result;'''))
R('x-idtoindex', 'C09', H, ('''        if (id < idOfOldest || id - idOfOldest >= buffer.size())
            throw std::out_of_range("Index not found in history");
        return idOfOldest + buffer.size() - 1 - id;''', '''        if (id >= idOfOldest)
        {
            const std::size_t age = id - idOfOldest; // 0 is the oldest
            if (age < buffer.size())
                return buffer.size() - 1 - age;
        }
        throw std::out_of_range("Index not found in history");'''))
R('x-insert', 'C07 C08 C09', H, ('''        buffer.emplace_front(item);
        evicted = buffer.size() > maxSize;
        if (evicted)
        {
            lastEvicted = buffer.back();
            buffer.pop_back();
            ++idOfOldest;
        }''', '''        buffer.push_front(item);
        evicted = false;
        if (buffer.size() <= maxSize)
            return;
        evicted = true;
        lastEvicted = std::move(buffer.back());
        buffer.pop_back();
        ++idOfOldest;'''))
R('x-forget', 'C07 C09', H, ('''        if (!latestRecorded) // nothing was kept
            return;
        latestRecorded = false;
        buffer.pop_front();
        --commands;
        UndoEviction();''', '''        if (latestRecorded)
        {
            --commands;
            buffer.erase(buffer.begin());
            latestRecorded = false;
            UndoEviction();
        }'''))
# ---- terminal
R('x-setline', 'C12 C11', TM, ('''        if (newLine.size() < currentLine.size())
        {
            out << std::string(currentLine.size() - newLine.size(), ' ');
            // and go back
            out << std::string(currentLine.size() - newLine.size(), '\\b') << std::flush;
        }
''', '''        const auto oldSize = currentLine.size();
        const auto newSize = newLine.size();
        if (oldSize > newSize)
        {
            const auto excess = oldSize - newSize;
            out << std::string(excess, ' ') << std::string(excess, '\\b') << std::flush;
        }
'''))
R('x-setline-back', 'C12 C11', TM, ('''        out << beforeInput
            << std::string(position, '\\b') << newLine
            << afterInput << std::flush;
''', '''        out << beforeInput;
        Back(position);
        out << newLine << afterInput << std::flush;
'''), ('''    std::string currentLine;
    std::size_t position = 0;''', '''    void Back(std::size_t n) const
    {
        for (std::size_t i = 0; i < n; ++i)
            out << '\\b';
    }

    std::string currentLine;
    std::size_t position = 0;'''), ('''                out << std::string(position, '\\b') << std::flush;
                position = 0;''', '''                Back(position);
                out.flush();
                position = 0;'''))
R('x-backspace', 'C11 C12', TM, ('''                if (position == 0)
                    break;

                --position;

                const auto pos = static_cast<std::string::difference_type>(position);
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);
                // go back to the previous char
                out << '\\b';
                // output the rest of the line
                out << std::string(currentLine.begin() + pos, currentLine.end());
                // remove last char
                out << ' ';
                // go back to the original position
                out << std::string(currentLine.size() - position + 1, '\\b') << std::flush;
                break;''', '''                if (position > 0)
                {
                    --position;
                    currentLine.erase(position, 1);
                    const auto tail = currentLine.substr(position);
                    out << '\\b' << tail << ' ' << std::string(tail.size() + 1, '\\b') << std::flush;
                }
                break;'''))
R('x-ascii', 'C11 C12', TM, ('''                if (c == '\\t')
                    return std::make_pair(Symbol::tab, std::string());
                else
                {
                    const auto pos = static_cast<std::string::difference_type>(position);

                    // output the new char:
                    out << beforeInput << c;
                    // and the rest of the string:
                    out << std::string(currentLine.begin() + pos, currentLine.end())
                        << afterInput;

                    // go back to the original position
                    out << std::string(currentLine.size() - position, '\\b') << std::flush;

                    // update the buffer and cursor position:
                    currentLine.insert(currentLine.begin() + pos, c);
                    ++position;
                }

                break;''', '''                if (c == '\\t')
                    return std::make_pair(Symbol::tab, std::string());
                Type(c);
                break;'''), ('''  private:
    std::string currentLine;''', '''  private:
    void Type(char c)
    {
        // update the buffer:
        currentLine.insert(position, 1, c);
        // output the new char and the rest of the string:
        out << beforeInput << currentLine.substr(position) << afterInput;
        ++position;
        // go back to the cursor position
        out << std::string(currentLine.size() - position, '\\b') << std::flush;
    }

    std::string currentLine;'''))
R('x-canc', 'C11 C12', TM, ('''                if (position == currentLine.size())
                    break;

                const auto pos = static_cast<std::string::difference_type>(position);

                // output the rest of the line
                out << std::string(currentLine.begin() + pos + 1, currentLine.end());
                // remove last char
                out << ' ';
                // go back to the original position
                out << std::string(currentLine.size() - position, '\\b') << std::flush;
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);
                break;''', '''                if (position < currentLine.size())
                {
                    currentLine.erase(position, 1);
                    const std::string rest(currentLine, position);
                    out << rest << ' ';
                    out << std::string(rest.size() + 1, '\\b') << std::flush;
                }
                break;'''))
R('x-ret', 'C11 C14', TM, ('''                auto cmd = currentLine;
                currentLine.clear();
                position = 0;
                return std::make_pair(Symbol::command, cmd);''', '''                std::string cmd;
                cmd.swap(currentLine);
                ResetCursor();
                return { Symbol::command, cmd };'''))
R('x-end', 'C11 C12', TM, ('''                const auto pos = static_cast<std::string::difference_type>(position);

                out << beforeInput
                    << std::string(currentLine.begin() + pos, currentLine.end())
                    << afterInput << std::flush;
                position = currentLine.size();
                break;''', '''                out << beforeInput;
                for (; position < currentLine.size(); ++position)
                    out << currentLine[position];
                out << afterInput << std::flush;
                break;'''))
# ---- scheduler
R('x-ls-pop', 'C19', LS, ('''            cv.wait(lck, [this](){ return !running || !tasks.empty(); });
            if (!running)
                return false;
            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();

        return true;
    }

    bool PollOne()
    {
        std::function<void()> task;
        {
            std::lock_guard<std::mutex> lck(mtx);
            if (!running || tasks.empty())
                return false;
            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();

        return true;
    }

private:
''', '''            while (running && tasks.empty())
                cv.wait(lck);
            if (!Next(task))
                return false;
        }
        Execute(task);
        return true;
    }

    bool PollOne()
    {
        std::function<void()> task;
        {
            std::lock_guard<std::mutex> lck(mtx);
            if (!Next(task))
                return false;
        }
        Execute(task);
        return true;
    }

private:
    // the mutex must be locked
    bool Next(std::function<void()>& task)
    {
        if (!running || tasks.empty())
            return false;
        task = std::move(tasks.front());
        tasks.pop();
        return true;
    }

    static void Execute(const std::function<void()>& task)
    {
        if (task)
            task();
    }

'''))
R('x-ls-unlock', 'C19', LS, ('''        std::function<void()> task;
        {
            std::unique_lock<std::mutex> lck(mtx);
            cv.wait(lck, [this](){ return !running || !tasks.empty(); });
            if (!running)
                return false;
            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();

        return true;''', '''        std::unique_lock<std::mutex> lck(mtx);
        cv.wait(lck, [this](){ return !running || !tasks.empty(); });
        if (!running)
            return false;
        const auto task = tasks.front();
        tasks.pop();
        lck.unlock();

        if (task)
            task();

        return true;'''))
# ---- keyboard
R('x-kb-get', 'C16', K, ('''            case 27: // symbol
                ch = GetChar();
                if ( ch == 91 ) // arrow keys
                {
                    ch = GetChar();
                    switch( ch )
                    {
                        case 51:
                            ch = GetChar();
                            if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                            break;
                        case 65: return std::make_pair(KeyType::up,' ');
                        case 66: return std::make_pair(KeyType::down,' ');
                        case 68: return std::make_pair(KeyType::left,' ');
                        case 67: return std::make_pair(KeyType::right,' ');
                        case 70: return std::make_pair(KeyType::end,' ');
                        case 72: return std::make_pair(KeyType::home,' ');
                        default: break;
                    }
                    // skip an unknown sequence up to its final char
                    while ( ch >= 32 && ch <= 63 ) ch = GetChar();
                }
                break;''', '''            case 27: // symbol
                return std::make_pair(GetSequence(), ' ');'''), ('''    std::pair<KeyType,char> Get()
''', '''    // what follows an escape
    KeyType GetSequence()
    {
        if (GetChar() != '[')
            return KeyType::ignored;
        char ch = GetChar();
        if (ch == 65) return KeyType::up;
        if (ch == 66) return KeyType::down;
        if (ch == 67) return KeyType::right;
        if (ch == 68) return KeyType::left;
        if (ch == 70) return KeyType::end;
        if (ch == 72) return KeyType::home;
        if (ch == 51)
        {
            ch = GetChar();
            if (ch == 126) return KeyType::canc;
        }
        // skip an unknown sequence up to its final char
        for (; ch >= 32 && ch <= 63; ch = GetChar())
        {
        }
        return KeyType::ignored;
    }

    std::pair<KeyType,char> Get()
'''))
R('x-kb-getchar', 'C16', K, ('''        char buffer = 0;
        ssize_t count = 0;
        do
            count = read(0, &buffer, 1);
        while (count == -1 && errno == EINTR);
        if (count != 1)
            return static_cast<char>(EOF);
        return buffer;''', '''        for (;;)
        {
            char buffer = 0;
            const ssize_t count = read(STDIN_FILENO, &buffer, sizeof(buffer));
            if (count == 1)
                return buffer;
            if (count != -1 || errno != EINTR)
                return static_cast<char>(EOF);
        }'''))
R('x-kb-wait', 'C14 C16 C22', K, ('''        fd_set rfds;
        int ready = 0;
        do
        {
            FD_ZERO(&rfds);
            FD_SET(STDIN_FILENO, &rfds);
            FD_SET(readPipe, &rfds);
            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
        }
        while (ready == 0 || (ready == -1 && errno == EINTR));
''', '''        fd_set rfds;
        while (true)
        {
            FD_ZERO(&rfds);
            FD_SET(STDIN_FILENO, &rfds);
            FD_SET(readPipe, &rfds);
            const int ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
            const bool interrupted = ready == -1 && errno == EINTR;
            if (ready != 0 && !interrupted)
                break;
        }
'''))
R('x-kb-read', 'C22 C14', K, ('''                {
                    std::unique_lock<std::mutex> lock(mtx);
                    cv.wait(lock, [this]{ return enabled || stopping; }); // release mtx, suspend thread execution until enabled (or stopping) becomes true
                }
                is.WaitKbHit();
                {
                    // input can have been deactivated while waiting: the char is not for us
                    std::lock_guard<std::mutex> lock(mtx);
                    if (!enabled) continue;
                }
                auto k = Get();
                Notify(k);
''', '''                WaitEnabled();
                is.WaitKbHit();
                if (Enabled()) // input can have been deactivated while waiting: the char is not for us
                    Notify(Get());
'''), ('''    char GetChar()
''', '''    void WaitEnabled()
    {
        std::unique_lock<std::mutex> lock(mtx);
        while (!enabled && !stopping)
            cv.wait(lock);
    }

    bool Enabled()
    {
        std::lock_guard<std::mutex> lock(mtx);
        return enabled;
    }

    char GetChar()
'''))
# ---- split
R('x-sp-blank', 'C01', SP, ('''        if (c == ' ' || c == '\\t' || c == '\\n')
        {
            // do nothing
        }
        else if (c == '"' || c == '\\'')
        {
            NewSentence(c);
        }''', '''        if (IsBlank(c))
            return;
        if (IsQuote(c))
        {
            NewSentence(c);
        }'''), ('''        if (c == ' ' || c == '\\t' || c == '\\n')
        {
            state = State::space;
        }''', '''        if (IsBlank(c))
        {
            state = State::space;
        }'''), ('''    void NewSentence(char c)
''', '''    static bool IsBlank(char c) { return std::string(" \\t\\n").find(c) != std::string::npos; }
    static bool IsQuote(char c) { return c == '"' || c == '\\''; }

    void NewSentence(char c)
'''))
R('x-sp-append', 'C01', SP, ('''    void EvalEscape(char c)
    {
        assert(!splitResult.empty());
        if (c != '"' && c != '\\'' && c != '\\\\')
            splitResult.back() += "\\\\";
        splitResult.back() += c;
        state = prev_state;
    }
''', '''    void EvalEscape(char c)
    {
        switch (c)
        {
            case '"':
            case '\\'':
            case '\\\\':
                break;
            default:
                Append('\\\\');
        }
        Append(c);
        state = prev_state;
    }

    void Append(char c)
    {
        assert(!splitResult.empty());
        splitResult.back().push_back(c);
    }
'''))
R('x-sp-sentence', 'C01', SP, ('''        if (c == '"' || c == '\\'')
        {
            auto new_type = c == '"' ? SentenceType::double_quote : SentenceType::quote;
            if (new_type == sentence_type)
                state = State::space;
            else
            {
                assert(!splitResult.empty());
                splitResult.back() += c;
            }
        }
        else if (c == '\\\\')''', '''        const char closing = sentence_type == SentenceType::double_quote ? '"' : '\\'';
        if (c == closing)
        {
            state = State::space;
        }
        else if (c == '\\\\')'''))
R('x-sp-remove', 'C01', SP, ('''        splitResult.erase(
            std::remove_if(
                splitResult.begin(),
                splitResult.end(),
                [](const std::string& s){ return s.empty(); }
            ),
            splitResult.end()
        );''', '''        std::vector<std::string> kept;
        kept.reserve(splitResult.size());
        for (auto& s: splitResult)
        {
            if (s.empty())
                continue;
            kept.push_back(std::move(s));
        }
        splitResult = std::move(kept);'''))
R('x-sp-table', 'C01', SP, ('''        splitResult.swap(strs); // puts the result back in strs
''', '''        strs = splitResult;
        splitResult.clear();
'''))
# ---- storages
R('x-fh-store', 'C10', FH, ('''        auto commands = Commands();
        commands.insert(commands.end(), cmds.begin(), cmds.end());
        if (commands.size() > maxSize)
            commands.erase(
                commands.begin(), 
                commands.begin() + static_cast<dt>(commands.size() - maxSize)
            );
        std::ofstream f(fileName, std::ios_base::out);
            for (const auto& line: commands)
                f << line << '\\n';''', '''        auto commands = Commands();
        for (const auto& c: cmds)
            commands.push_back(c);
        const auto first = commands.size() > maxSize ? commands.begin() + static_cast<dt>(commands.size() - maxSize) : commands.begin();
        std::ofstream f(fileName);
        for (auto i = first; i != commands.end(); ++i)
            f << *i << '\\n';'''))
R('x-fh-commands', 'C10', FH, ('''        if (in)
        {
            std::string line;
            while (std::getline(in, line))
                commands.push_back(line);
        }
        return commands;''', '''        if (!in)
            return commands;
        for (std::string line; std::getline(in, line);)
            commands.emplace_back(line);
        return commands;'''))
R('x-vh-store', 'C10', VH, ('''            using dt = std::deque<std::string>::difference_type;
            commands.insert(commands.end(), cmds.begin(), cmds.end());
            if (commands.size() > maxSize)
                commands.erase(
                    commands.begin(),
                    commands.begin()+static_cast<dt>(commands.size()-maxSize)
                );''', '''            for (const auto& c: cmds)
            {
                commands.push_back(c);
                if (commands.size() > maxSize)
                    commands.pop_front();
            }'''))
R('x-vh-store2', 'C10', VH, ('''            using dt = std::deque<std::string>::difference_type;
            commands.insert(commands.end(), cmds.begin(), cmds.end());
            if (commands.size() > maxSize)
                commands.erase(
                    commands.begin(),
                    commands.begin()+static_cast<dt>(commands.size()-maxSize)
                );''', '''            std::copy(cmds.begin(), cmds.end(), std::back_inserter(commands));
            while (commands.size() > maxSize)
                commands.pop_front();'''))
R('x-vh-commands', 'C10', VH, ('''            return std::vector<std::string>(commands.begin(), commands.end());''', '''            std::vector<std::string> result;
            result.assign(commands.begin(), commands.end());
            return result;'''))
