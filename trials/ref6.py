TRIALS = []
def R(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='ref', edits=[(f, a, b) for a, b in edits]))
T, H, K, L = 'detail/terminal.h', 'detail/history.h', 'detail/linuxkeyboard.h', 'loopscheduler.h'
# ---- terminal
R('u-t-backs', 'C12 C11', T, ('    void ResetCursor() { position = 0; }\n', '    void ResetCursor() { position = 0; }\n\n    static std::string Backspaces(std::size_t n) { return std::string(n, \'\\b\'); }\n'),
  ("            << std::string(position, '\\b') << newLine", "            << Backspaces(position) << newLine"),
  ("                out << std::string(position, '\\b') << std::flush;\n                position = 0;", "                out << Backspaces(position) << std::flush;\n                position = 0;"),
  ("out << std::string(currentLine.size() - position + 1, '\\b') << std::flush;", "out << Backspaces(currentLine.size() - position + 1) << std::flush;"))
R('u-t-tail', 'C12 C11', T, ('    std::string currentLine;\n    std::size_t position', '    std::string Tail() const { return currentLine.substr(position); }\n\n    std::string currentLine;\n    std::size_t position'),
  ("out << std::string(currentLine.begin() + pos, currentLine.end());\n                // remove last char", "out << Tail();\n                // remove last char"),
  ("                    << std::string(currentLine.begin() + pos, currentLine.end())\n                    << afterInput << std::flush;\n                position", "                    << Tail()\n                    << afterInput << std::flush;\n                position"))
R('u-t-eraseidx', 'C11 C12', T, ("                currentLine.erase(currentLine.begin() + pos);\n                // go back to the previous char", "                currentLine.erase(position, 1);\n                // go back to the previous char"),
  ("                    currentLine.insert(currentLine.begin() + pos, c);", "                    currentLine.insert(position, 1, c);"))
R('u-t-retswap', 'C11 C12', T, ("                auto cmd = currentLine;\n                currentLine.clear();\n                position = 0;\n                return std::make_pair(Symbol::command, cmd);", "                std::string cmd;\n                cmd.swap(currentLine);\n                position = 0;\n                return {Symbol::command, cmd};"))
R('u-t-retmove', 'C11 C12', T, ("                auto cmd = currentLine;\n                currentLine.clear();", "                auto cmd = std::move(currentLine);\n                currentLine = std::string{};"))
R('u-t-diff', 'C11 C12', T, ("        if (newLine.size() < currentLine.size())\n        {\n            out << std::string(currentLine.size() - newLine.size(), ' ');\n            // and go back\n            out << std::string(currentLine.size() - newLine.size(), '\\b') << std::flush;",
  "        const auto oldSize = currentLine.size();\n        const auto newSize = newLine.size();\n        if (oldSize > newSize)\n        {\n            const auto diff = oldSize - newSize;\n            out << std::string(diff, ' ')\n                << std::string(diff, '\\b') << std::flush;"))
R('u-t-loopput', 'C11 C12', T, ("                out << std::string(position, '\\b') << std::flush;\n                position = 0;", "                for (; position > 0; --position)\n                    out << '\\b';\n                out << std::flush;"))
R('u-t-handlers', 'C11 C12', T, ("                if (position == 0)\n                    break;\n\n                --position;", "                if (!MoveBack())\n                    break;\n"),
  ("                if (position > 0)\n                {\n                    out << '\\b' << std::flush;\n                    --position;\n                }", "                if (MoveBack())\n                    out << '\\b' << std::flush;"),
  ("  private:\n    std::string currentLine;", "  private:\n    bool MoveBack()\n    {\n        if (position == 0) return false;\n        --position;\n        return true;\n    }\n\n    std::string currentLine;"))
R('u-t-result', 'C11 C12', T, ("        switch (k.first)\n        {\n            case KeyType::eof:\n                return std::make_pair(Symbol::eof, std::string{});\n                break;", "        Symbol result = Symbol::nothing;\n        switch (k.first)\n        {\n            case KeyType::eof:\n                result = Symbol::eof;\n                break;"),
  ("            case KeyType::up:\n                return std::make_pair(Symbol::up, std::string{});\n                break;\n            case KeyType::down:\n                return std::make_pair(Symbol::down, std::string{});", "            case KeyType::up:\n                result = Symbol::up;\n                break;\n            case KeyType::down:\n                result = Symbol::down;"),
  ("                return std::make_pair(Symbol::clear, std::string());", "                result = Symbol::clear;"),
  ("        return std::make_pair(Symbol::nothing, std::string());", "        return std::make_pair(result, std::string());"))
R('u-t-ifs', 'C11 C12', T, ("        switch (k.first)\n        {\n            case KeyType::eof:\n                return std::make_pair(Symbol::eof, std::string{});\n                break;", "        if (k.first == KeyType::eof)\n            return std::make_pair(Symbol::eof, std::string{});\n        const auto key = k.first;\n        switch (key)\n        {\n            case KeyType::eof:\n                break;"))
R('u-t-tabearly', 'C11 C12', T, ("        switch (k.first)\n        {", "        if (k.first == KeyType::ascii && k.second == '\\t')\n            return {Symbol::tab, {}};\n        switch (k.first)\n        {"),
  ("                const char c = static_cast<char>(k.second);\n                if (c == '\\t')\n                    return std::make_pair(Symbol::tab, std::string());\n                else\n                {", "                const char c = k.second;\n                {"))
R('u-t-rightat', 'C11 C12', T, ("                if (position < currentLine.size())\n                {\n                    out << beforeInput\n                        << currentLine[position]\n                        << afterInput << std::flush;\n                    ++position;\n                }", "                if (position != currentLine.size())\n                {\n                    const char c = currentLine.at(position++);\n                    out << beforeInput << c << afterInput << std::flush;\n                }"))
# ---- history
R('u-h-record', 'C07 C10', H, ("                Insert(item);\n                ++commands;\n                latestRecorded = !buffer.empty();", "                Record(item);"), ("    void Insert(const std::string& item)\n    {", "    void Record(const std::string& item)\n    {\n        Insert(item);\n        ++commands;\n        latestRecorded = !buffer.empty();\n    }\n\n    void Insert(const std::string& item)\n    {"))
R('u-h-front', 'C07 C08', H, ("                buffer[current] = item;\n                ++commands;", "                buffer.front() = item;\n                ++commands;"), ("            if (buffer.empty() || buffer[0] != item)", "            const bool repeated = !buffer.empty() && buffer.front() == item;\n            if (!repeated)"))
R('u-h-early', 'C07 C08', H, ("        if (mode == Mode::browsing)\n        {\n            assert(!buffer.empty());\n            if (buffer.size() > 1 &&", "        const bool browsing = mode == Mode::browsing;\n        mode = Mode::inserting;\n        if (browsing)\n        {\n            assert(!buffer.empty());\n            if (buffer.size() > 1 &&"), ("                latestRecorded = !buffer.empty();\n            }\n        }\n        mode = Mode::inserting;", "                latestRecorded = !buffer.empty();\n            }\n        }"))
R('u-h-getloop', 'C10 C07', H, ("        std::vector<std::string> result(numCmdsToReturn);\n", "        std::vector<std::string> result;\n        result.reserve(numCmdsToReturn);\n"), ("        std::reverse_copy(start, start+static_cast<long>(numCmdsToReturn), result.begin());\n", "        for (auto i = numCmdsToReturn; i > 0; --i)\n            result.push_back(*(start + static_cast<long>(i - 1)));\n"))
R('u-h-getoff', 'C10 C07', H, ("        auto numCmdsToReturn = std::min(commands, buffer.size());\n        auto start = buffer.begin();\n        if (mode == Mode::browsing)\n        {\n            numCmdsToReturn = std::min(commands, buffer.size()-1);\n            start = buffer.begin()+1;\n        }", "        const std::size_t offset = (mode == Mode::browsing) ? 1 : 0;\n        const auto numCmdsToReturn = std::min(commands, buffer.size() - offset);\n        const auto start = buffer.begin() + static_cast<long>(offset);"))
R('u-h-getassign', 'C10 C07', H, ("        std::vector<std::string> result(numCmdsToReturn);\n", ""), ("        std::reverse_copy(start, start+static_cast<long>(numCmdsToReturn), result.begin());\n        return result;", "        std::vector<std::string> result(start, start+static_cast<long>(numCmdsToReturn));\n        std::reverse(result.begin(), result.end());\n        return result;"))
R('u-h-showrev', 'C07 C09', H, ("        for (std::size_t i = 0; i < size; ++i)\n        {\n            const auto j = size-1-i;\n            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';\n        }", "        for (std::size_t j = size; j-- > 0; )\n            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';"))
R('u-h-showid', 'C07 C09', H, ("        for (std::size_t i = 0; i < size; ++i)\n        {\n            const auto j = size-1-i;\n            out << IndexToId(j) << '\\t' << buffer[j] << '\\n';\n        }", "        auto id = idOfOldest;\n        for (auto it = buffer.rbegin(); it != buffer.rend(); ++it)\n            out << id++ << '\\t' << *it << '\\n';"), ("        const auto size = buffer.size();\n", ""))
R('u-h-idcheck', 'C07 C09', H, ("        if (id < idOfOldest || id - idOfOldest >= buffer.size())\n            throw", "        const bool tooOld = id < idOfOldest;\n        const bool tooNew = !tooOld && (id - idOfOldest) >= buffer.size();\n        if (tooOld || tooNew)\n            throw"))
R('u-h-at', 'C07 C09', H, ("        std::size_t index = IdToIndex(id);\n        assert(index < buffer.size());\n        return buffer[index];", "        return buffer.at(IdToIndex(id));"))
R('u-h-insert2', 'C07 C08 C10', H, ("        buffer.emplace_front(item);\n        evicted = buffer.size() > maxSize;\n        if (evicted)\n        {\n            lastEvicted = buffer.back();\n            buffer.pop_back();\n            ++idOfOldest;\n        }", "        buffer.push_front(item);\n        evicted = buffer.size() > maxSize;\n        if (!evicted)\n            return;\n        lastEvicted = std::move(buffer.back());\n        buffer.pop_back();\n        idOfOldest += 1;"))
R('u-h-undo', 'C07 C08', H, ("        if (!evicted)\n            return;\n        evicted = false;\n        buffer.push_back(lastEvicted);\n        --idOfOldest;", "        if (evicted)\n        {\n            buffer.emplace_back(std::move(lastEvicted));\n            --idOfOldest;\n            evicted = false;\n        }"))
R('u-h-prevhelp', 'C08', H, ("            Insert(line);\n            latestRecorded = false; // the front of the buffer is now the edit line\n            mode = Mode::browsing;\n            current = (buffer.size() > 1) ? 1 : 0;\n        }\n        else // Mode::browsing\n        {\n            assert(!buffer.empty());\n            buffer[current] = line;\n            if (current != buffer.size()-1)\n                ++current;\n        }", "            StartBrowsing(line);\n        }\n        else // Mode::browsing\n        {\n            assert(!buffer.empty());\n            buffer[current] = line;\n        }\n        if (current + 1 < buffer.size())\n            ++current;"),
  ("    void Insert(const std::string& item)\n    {", "    void StartBrowsing(const std::string& line)\n    {\n        Insert(line);\n        latestRecorded = false; // the front of the buffer is now the edit line\n        mode = Mode::browsing;\n        current = 0;\n    }\n\n    void Insert(const std::string& item)\n    {"))
R('u-h-nextat', 'C08', H, ("        if (buffer.empty() || current == 0)\n            return {};\n        assert(current != 0);\n        --current;\n        assert(current < buffer.size());\n        return buffer[current];", "        if (current == 0 || buffer.empty())\n            return std::string();\n        return buffer.at(--current);"))
R('u-h-load', 'C10 C07', H, ("        for (const auto& c: cmds)\n            Insert(c);", "        std::for_each(cmds.begin(), cmds.end(), [this](const std::string& c){ Insert(c); });"))
R('u-h-load2', 'C10 C07', H, ("        for (const auto& c: cmds)\n            Insert(c);", "        for (std::size_t i = 0; i != cmds.size(); ++i)\n            Insert(cmds[i]);"))
# ---- keyboard
R('u-k-mk', 'C16', K, ("            case 10: return std::make_pair(KeyType::ret,' '); break;\n            case 12: return std::make_pair(KeyType::clear, ' '); break;", "            case '\\n': return {KeyType::ret, ' '};\n            case '\\f': return {KeyType::clear, ' '};"))
R('u-k-escape', 'C16', K, ("""                ch = GetChar();
                if ( ch == 91 ) // arrow keys
                {
                    ch = GetChar();
                    switch( ch )
                    {
                        case 51:
                            ch = GetChar();
                            if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                            break;
                        case 65: return std::make_pair(KeyType::up,' ');
                        case 66: return std::make_pair(KeyType::down,' ');
                        case 68: return std::make_pair(KeyType::left,' ');
                        case 67: return std::make_pair(KeyType::right,' ');
                        case 70: return std::make_pair(KeyType::end,' ');
                        case 72: return std::make_pair(KeyType::home,' ');
                        default: break;
                    }
                    // skip an unknown sequence up to its final char
                    while ( ch >= 32 && ch <= 63 ) ch = GetChar();
                }
                break;""", "                return std::make_pair(GetEscape(), ' ');"),
  ("    std::pair<KeyType,char> Get()\n", """    KeyType GetEscape()
    {
        if (GetChar() != '[') return KeyType::ignored;
        auto ch = GetChar();
        if (ch == '3')
        {
            ch = GetChar();
            if (ch == '~') return KeyType::canc;
        }
        else if (ch == 'A') return KeyType::up;
        else if (ch == 'B') return KeyType::down;
        else if (ch == 'C') return KeyType::right;
        else if (ch == 'D') return KeyType::left;
        else if (ch == 'F') return KeyType::end;
        else if (ch == 'H') return KeyType::home;
        // skip an unknown sequence up to its final char
        while (ch >= 0x20 && ch <= 0x3f) ch = GetChar();
        return KeyType::ignored;
    }

    std::pair<KeyType,char> Get()
"""))
R('u-k-getchar', 'C16', K, ("        do\n            count = read(0, &buffer, 1);\n        while (count == -1 && errno == EINTR);\n        if (count != 1)\n            return static_cast<char>(EOF);\n        return buffer;", "        for (;;)\n        {\n            count = read(STDIN_FILENO, &buffer, 1);\n            if (count == 1)\n                return buffer;\n            if (count != -1 || errno != EINTR)\n                return static_cast<char>(EOF);\n        }"))
R('u-k-waitenabled', 'C22 C14', K, ("                {\n                    std::unique_lock<std::mutex> lock(mtx);\n                    cv.wait(lock, [this]{ return enabled || stopping; }); // release mtx, suspend thread execution until enabled (or stopping) becomes true\n                }\n                is.WaitKbHit();", "                WaitEnabled();\n                is.WaitKbHit();"), ("    char GetChar()\n", "    void WaitEnabled()\n    {\n        std::unique_lock<std::mutex> lock(mtx);\n        while (!enabled && !stopping)\n            cv.wait(lock);\n    }\n\n    char GetChar()\n"))
R('u-k-isenabled', 'C22 C14', K, ("                {\n                    // input can have been deactivated while waiting: the char is not for us\n                    std::lock_guard<std::mutex> lock(mtx);\n                    if (!enabled) continue;\n                }\n                auto k = Get();\n                Notify(k);", "                // input can have been deactivated while waiting: the char is not for us\n                if (IsEnabled())\n                    Notify(Get());"), ("    char GetChar()\n", "    bool IsEnabled()\n    {\n        std::lock_guard<std::mutex> lock(mtx);\n        return enabled;\n    }\n\n    char GetChar()\n"))
R('u-k-setenabled', 'C22 C14', K, ("        ToStandardMode();\n        std::lock_guard<std::mutex> lock(mtx);\n        enabled = false;", "        ToStandardMode();\n        SetEnabled(false);"), ("        ToManualMode();\n        std::lock_guard<std::mutex> lock(mtx);\n        enabled = true;\n        cv.notify_one();", "        ToManualMode();\n        SetEnabled(true);"), ("    void Read() noexcept\n", "    void SetEnabled(bool value)\n    {\n        std::lock_guard<std::mutex> lock(mtx);\n        enabled = value;\n        if (value)\n            cv.notify_one();\n    }\n\n    void Read() noexcept\n"))
R('u-k-notifyall', 'C22 C14', K, ("            stopping = true;\n            cv.notify_one();\n        }", "            stopping = true;\n        }\n        cv.notify_all();"))
R('u-k-select', 'C22', K, ("            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);\n        }\n        while (ready == 0 || (ready == -1 && errno == EINTR));", "            const int maxFd = readPipe > STDIN_FILENO ? readPipe : STDIN_FILENO;\n            ready = select(maxFd + 1, &rfds, nullptr, nullptr, nullptr);\n        }\n        while (ready == 0 || (ready < 0 && errno == EINTR));"))
R('u-k-manual', 'C22 C14', K, ("        constexpr tcflag_t ICANON_FLAG = ICANON;\n        constexpr tcflag_t ECHO_FLAG = ECHO;\n\n", ""), ("        newt.c_lflag &= ~( ICANON_FLAG | ECHO_FLAG );", "        newt.c_lflag &= ~static_cast<tcflag_t>(ICANON);\n        newt.c_lflag &= ~static_cast<tcflag_t>(ECHO);"))
# ---- scheduler
R('u-l-taketask', 'C19', L, ("            if (!running || tasks.empty())\n                return false;\n            task = tasks.front();\n            tasks.pop();\n        }\n\n        if (task)\n            task();\n\n        return true;\n    }\n\nprivate:", "            if (!running || tasks.empty())\n                return false;\n            task = TakeTask();\n        }\n        Execute(task);\n        return true;\n    }\n\nprivate:\n    std::function<void()> TakeTask()\n    {\n        auto t = std::move(tasks.front());\n        tasks.pop();\n        return t;\n    }\n    static void Execute(const std::function<void()>& t)\n    {\n        if (t) t();\n    }\n"),
  ("            if (!running)\n                return false;\n            task = tasks.front();\n            tasks.pop();\n        }\n\n        if (task)\n            task();", "            if (!running)\n                return false;\n            task = TakeTask();\n        }\n        Execute(task);"))
R('u-l-unlock', 'C19', L, ("        std::function<void()> task;\n        {\n            std::lock_guard<std::mutex> lck(mtx);\n            if (!running || tasks.empty())\n                return false;\n            task = tasks.front();\n            tasks.pop();\n        }\n", "        std::unique_lock<std::mutex> lck(mtx);\n        if (tasks.empty() || !running)\n            return false;\n        const auto task = tasks.front();\n        tasks.pop();\n        lck.unlock();\n"))
R('u-l-stop', 'C19', L, ("        std::lock_guard<std::mutex> lck (mtx);\n        running = false;\n        cv.notify_all();", "        {\n            std::lock_guard<std::mutex> lck (mtx);\n            running = false;\n        }\n        cv.notify_all();"))
R('u-l-dowhile', 'C19', L, ("        while( ExecOne() ) {};", "        bool go;\n        do go = ExecOne(); while (go);"))
R('u-l-waitloop', 'C19', L, ("            cv.wait(lck, [this](){ return !running || !tasks.empty(); });\n            if (!running)\n                return false;", "            while (running && tasks.empty())\n                cv.wait(lck);\n            if (!running)\n                return false;"))
# ---- storage
F, V = 'filehistorystorage.h', 'volatilehistorystorage.h'
R('u-f-trim', 'C10', F, ("        if (commands.size() > maxSize)\n            commands.erase(\n                commands.begin(), \n                commands.begin() + static_cast<dt>(commands.size() - maxSize)\n            );\n        std::ofstream f(fileName, std::ios_base::out);\n            for (const auto& line: commands)\n                f << line << '\\n';", "        const std::size_t first = commands.size() > maxSize ? commands.size() - maxSize : 0;\n        std::ofstream f(fileName, std::ios_base::out);\n        for (std::size_t i = first; i < commands.size(); ++i)\n            f << commands[i] << '\\n';"), ("        using dt = std::vector<std::string>::difference_type;\n", ""))
R('u-f-write', 'C10', F, ("        std::ofstream f(fileName, std::ios_base::out);\n            for (const auto& line: commands)\n                f << line << '\\n';\n    }", "        Write(commands);\n    }"), ("private:\n    const std::size_t maxSize;", "private:\n    void Write(const std::vector<std::string>& lines) const\n    {\n        std::ofstream f(fileName);\n        for (const auto& line: lines)\n            f << line << '\\n';\n    }\n\n    const std::size_t maxSize;"))
R('u-f-guard', 'C10', F, ("        std::vector<std::string> commands;\n        std::ifstream in(fileName);\n        if (in)\n        {\n            std::string line;\n            while (std::getline(in, line))\n                commands.push_back(line);\n        }\n        return commands;", "        std::vector<std::string> commands;\n        std::ifstream in(fileName);\n        if (!in)\n            return commands;\n        for (std::string line; std::getline(in, line); )\n            commands.emplace_back(line);\n        return commands;"))
R('u-f-pushback', 'C10', F, ("        commands.insert(commands.end(), cmds.begin(), cmds.end());", "        for (const auto& c : cmds)\n            commands.push_back(c);"))
R('u-v-pop', 'C10', V, ("            if (commands.size() > maxSize)\n                commands.erase(\n                    commands.begin(),\n                    commands.begin()+static_cast<dt>(commands.size()-maxSize)\n                );", "            while (commands.size() > maxSize)\n                commands.pop_front();"), ("            using dt = std::deque<std::string>::difference_type;\n", ""))
R('u-v-push', 'C10', V, ("            commands.insert(commands.end(), cmds.begin(), cmds.end());\n", "            for (const auto& c : cmds)\n                commands.push_back(c);\n"))
R('u-v-copy', 'C10', V, ("            return std::vector<std::string>(commands.begin(), commands.end());", "            std::vector<std::string> result;\n            result.reserve(commands.size());\n            std::copy(commands.begin(), commands.end(), std::back_inserter(result));\n            return result;"))
R('u-v-helper', 'C10', V, ("            if (commands.size() > maxSize)\n                commands.erase(\n                    commands.begin(),\n                    commands.begin()+static_cast<dt>(commands.size()-maxSize)\n                );\n        }", "            Trim();\n        }"), ("            using dt = std::deque<std::string>::difference_type;\n", ""), ("    private:\n        const std::size_t maxSize;", "    private:\n        void Trim()\n        {\n            if (commands.size() <= maxSize) return;\n            const auto extra = commands.size() - maxSize;\n            commands.erase(commands.begin(), commands.begin() + static_cast<long>(extra));\n        }\n        const std::size_t maxSize;"))
