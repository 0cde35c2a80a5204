"""Bugs (twelfth batch), written from the statements and the source only."""
TRIALS = []
def B(id, props, f, *edits): TRIALS.append(dict(id=id, props=props.split(), kind='bug', edits=[(f, a, b) for a, b in edits]))
C = 'cli.h'; T = 'detail/genericasioremotecli.h'; S = 'detail/server.h'; L = 'loopscheduler.h'; K = 'detail/linuxkeyboard.h'
H = 'detail/history.h'; M = 'detail/terminal.h'; P = 'detail/commandprocessor.h'
# telnet
B('b12-leading-nl', 'C15', T, ("if (c == '\\n') result", "if (c == '\\n' && !result.empty()) result"))
B('b12-crlf-kept', 'C15', T, ("if (c == '\\n') result", "if (c == '\\n' && (result.empty() || result.back() != '\\r')) result"))
B('b12-iac-in-sub', 'C15', T, ("            if (c == IAC)\n                Data(c);", "            if (c == IAC && state == State::data)\n                Data(c);"))
B('b12-dont-do', 'C15', T, ("state = State::wait_dont;\n                break;\n            case IAC", "state = State::wait_do;\n                break;\n            case IAC"))
B('b12-nop-keeps', 'C15', T, ("            case NOP:\n                state = State::data;\n", "            case NOP:\n"))
B('b12-question', 'C22', T, ("c >= 32 && c <= 63", "c >= 32 && c < 63"))
B('b12-del-seq', 'C22', T, ("                else\n                    Unknown(c);", "                else\n                {\n                    step = Step::_1;\n                    Notify(std::make_pair(KeyType::ignored,' '));\n                }"))
B('b12-cr-pending', 'C22', T, ("                else Notify(std::make_pair(KeyType::ignored,' '));\n\n                step = Step::_1;", "                else { Notify(std::make_pair(KeyType::ignored,' ')); if (c == 13) break; }\n\n                step = Step::_1;"))
B('b12-exit-null', 'C23 C15', T, ("if (_exitAction) _exitAction(_out); Disconnect();", "if (_exitAction) { _exitAction(_out); Disconnect(); }"))
B('b12-enter-moved', 'C23', T, ("session->CliSession::EnterAction(enterAction);", "session->CliSession::EnterAction(std::move(enterAction)); enterAction = nullptr;"))
B('b12-accept-err', 'C23', S, ("                Accept(); // go on accepting, whatever the session does\n                if (!ec) CreateSession", "                if (ec != asiolib::error::connection_aborted) Accept();\n                if (!ec) CreateSession"))
B('b12-read-full', 'C15 C23', S, ("OnDataReceived( std::string( data, length ));\n", "OnDataReceived( std::string( data, length == max_length ? length-1 : length ));\n"))
B('b12-read-cstr', 'C15', S, ("std::string( data, length )", "std::string( data, std::find(data, data + length, '\\0') )"))
# loop scheduler
B('b12-notify-once', 'C19', L, ("tasks.push(f);\n        cv.notify_all();", "tasks.push(f);\n        if (tasks.size() == 1) cv.notify_one();"))
B('b12-run-after-stop', 'C19', L, ("            if (!running)\n                return false;\n", "            if (!running && tasks.empty())\n                return false;\n"))
B('b12-poll-lifo', 'C19', L, ("            if (!running || tasks.empty())\n                return false;\n            task = tasks.front();", "            if (!running || tasks.empty())\n                return false;\n            task = tasks.back();"))
B('b12-stop-nolock', 'C19', L, ("        std::lock_guard<std::mutex> lck (mtx);\n        running = false;", "        running = false;\n        std::lock_guard<std::mutex> lck (mtx);"))
B('b12-null-stops', 'C19', L, ("        if (task)\n            task();\n\n        return true;\n    }\n\n    bool PollOne", "        if (!task)\n            return false;\n        task();\n        return true;\n    }\n\n    bool PollOne"))
# asio scheduler
B('b12-dtor-order', 'C19', 'detail/genericasioscheduler.h', ("            work.reset(); // work uses context, so it must be deleted before context\n            delete context;", "            delete context;\n            work.reset();"))
# history, storages
B('b12-forget-count', 'C07 C09', H, ("        buffer.pop_front();\n        --commands;\n", "        buffer.pop_front();\n"))
B('b12-at-past', 'C07', H, ("id - idOfOldest >= buffer.size()", "id - idOfOldest > buffer.size()"))
B('b12-undo-id', 'C07', H, ("        buffer.push_back(lastEvicted);\n        --idOfOldest;", "        buffer.push_back(lastEvicted);"))
B('b12-undo-front', 'C08', H, ("            evicted = buffer.size() > maxSize;", "            evicted = buffer.size() >= maxSize;"))
B('b12-evict-flag', 'C07', H, ("        evicted = buffer.size() > maxSize;\n        if (evicted)\n        {", "        if (buffer.size() > maxSize)\n        {\n            evicted = true;"))
B('b12-latest-flag', 'C07', H, ("            latestRecorded = false; // the front of the buffer is now the edit line\n", ""))
B('b12-trim-first', 'C10', 'volatilehistorystorage.h', ("            commands.insert(commands.end(), cmds.begin(), cmds.end());\n            if (commands.size() > maxSize)", "            const auto old = commands.size();\n            commands.insert(commands.end(), cmds.begin(), cmds.end());\n            if (old >= maxSize || cmds.size() > maxSize)"))
B('b12-file-app', 'C10', 'filehistorystorage.h', ("        std::ofstream f(fileName, std::ios_base::out);\n", "        std::ofstream f(fileName, commands.size() > cmds.size() ? std::ios_base::out : std::ios_base::app);\n"))
B('b12-file-skip', 'C10', 'filehistorystorage.h', ("                commands.push_back(line);", "                if (!line.empty()) commands.push_back(line);"))
# terminal, processor, keyboard
B('b12-canc-order', 'C11', M, ("                // output the rest of the line\n                out << std::string(currentLine.begin() + pos + 1, currentLine.end());\n                // remove last char\n                out << ' ';\n                // go back to the original position\n                out << std::string(currentLine.size() - position, '\\b') << std::flush;\n                // remove the char from buffer\n                currentLine.erase(currentLine.begin() + pos);", "                currentLine.erase(currentLine.begin() + pos);\n                out << std::string(currentLine.begin() + pos, currentLine.end()) << ' ' << std::string(currentLine.size() - position, '\\b') << std::flush;"))
B('b12-setline-pos', 'C11', M, ("<< std::string(position, '\\b') << newLine", "<< std::string(std::min(position, newLine.size()), '\\b') << newLine"))
B('b12-clear-empty', 'C14', M, ("return std::make_pair(Symbol::clear, std::string());", "return std::make_pair(currentLine.empty() ? Symbol::nothing : Symbol::clear, std::string());"))
B('b12-tab-list', 'C14', P, ("commonPrefix.size() > line.size()", "commonPrefix.size() >= line.size()"))
B('b12-tab-prefix-neq', 'C14', P, ("commonPrefix.size() > line.size()", "commonPrefix != line"))
B('b12-eof-if-empty', 'C14 C22', P, ("                session.Exit();\n                break;", "                if (terminal.GetLine().empty()) session.Exit();\n                break;"))
B('b12-throw-input', 'C16', K, ("                    if (!enabled) continue;", "                    if (!enabled && !stopping) continue;"))
B('b12-stdin-first', 'C16', K, ("        if (FD_ISSET(readPipe, &rfds)) // stop called", "        if (FD_ISSET(readPipe, &rfds) && !FD_ISSET(STDIN_FILENO, &rfds)) // stop called"))
B('b12-eintr', 'C14', K, ("while (count == -1 && errno == EINTR);", "while (count == -1 && errno == EAGAIN);"))
B('b12-join-lock', 'C16', K, ("            stopping = true;\n            cv.notify_one();\n        }\n        servant.join();", "            stopping = true;\n            cv.notify_one();\n            servant.join();\n        }"))
# cli.h
B('b12-live-list', 'C03 C04 C05 C06 C21', C, ("            const Cmds entries = *cmds; // the handlers can add and remove commands\n            for (auto& cmd: entries)\n                if (cmd->Exec(cmdLine, session))", "            const Cmds& entries = *cmds;\n            for (auto& cmd: entries)\n                if (cmd->Exec(cmdLine, session))"))
B('b12-bare-disabled', 'C05', C, ("            if (!IsEnabled())\n                return false;\n\n            assert(!cmdLine.empty());\n", "            if (!IsEnabled() && cmdLine.size() > 1)\n                return false;\n\n            assert(!cmdLine.empty());\n"))
B('b12-parent-first', 'C04', C, ("            assert(!cmdLine.empty());\n            return (parent && parent->ExecParent(cmdLine, session));", "            assert(!cmdLine.empty());\n            return (parent && !parent->Name().empty() && parent->ExecParent(cmdLine, session));"))
B('b12-reused-prompt', 'C21', C, ("prompt(_prompt.empty() ? _name : _prompt)", "prompt(_prompt.empty() ? description : _prompt)"))
B('b12-remove-name', 'C05', C, ("[&](const auto& c){ return c.get() == scmd.get(); }", "[&](const auto& c){ return typeid(*c) == typeid(*scmd); }"))
B('b12-bad-cast-any', 'C06 C04', C, ("                    if (invoked) // the exception comes from the handler, not from a parameter conversion\n                        throw;\n", "                    if (invoked && paramSize > 0)\n                        throw;\n"))
B('b12-unreg-all', 'C18', C, ("            auto i = std::find(ostreams.begin(), ostreams.end(), &o);\n            if (i != ostreams.end())\n                ostreams.erase(i);\n", "            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());\n"))
B('b12-hist-nested', 'C09', C, ("            history.ForgetLatest();\n            const auto cmd = history.At(index);\n", "            if (fromHistory.empty()) history.ForgetLatest();\n            const auto cmd = history.At(index);\n"))
B('b12-hist-throw', 'C09', C, ("            catch (...)\n            {\n                fromHistory.pop_back();\n                throw;", "            catch (const std::exception&)\n            {\n                fromHistory.pop_back();\n                throw;"))
B('b12-exit-noflag', 'C17', C, ("            exit = true; // prevent the prompt to be shown\n\n            if (exitAction)\n                exitAction(out);\n            cli.ExitAction(out);\n", "\n            if (exitAction)\n                exitAction(out);\n            cli.ExitAction(out);\n            exit = true;\n"))
B('b12-store-first', 'C17 C10', C, ("            auto cmds = history.GetCommands();\n            cli.StoreCommands(cmds);", "            auto cmds = history.GetCommands();\n            if (cmds.size() > 1) cli.StoreCommands(cmds);"))
# sessions
B('b12-async-len', 'C20 C17', 'detail/genericcliasyncsession.h', ("            inputBuffer.consume( length );", "            inputBuffer.consume( s.size() );"))
B('b12-async-exited', 'C17', 'detail/genericcliasyncsession.h', ("if (!Exited()) Read();", "if (!Exited() || inputBuffer.size() > 0) Read();"))
B('b12-file-fail', 'C20', 'clifilesession.h', ("            if (in.eof())\n", "            if (in.eof() && line.empty())\n"))
# repaired defects put back by hand (the others: git revert)
B('b12-fix-cap0', 'C07', H, ("            if (maxSize == 0) // nothing is kept, there is nothing to browse\n                return line;\n", ""))
B('b12-fix-count', 'C10', H, ("                Insert(item);\n                ++commands;\n                latestRecorded = !buffer.empty();\n            }", "                Insert(item);\n                latestRecorded = !buffer.empty();\n            }\n            ++commands;"))
B('b12-fix-exit2', 'C17', C, ("            if (exit) return; // already ended\n", ""))
B('b12-fix-eof', 'C16', K, ("        if (count != 1)\n            return static_cast<char>(EOF);\n", ""))
B('b12-fix-async-enter', 'C17', 'detail/genericcliasyncsession.h', ("        Enter();\n        Read();", "        Read();"))
B('b12-fix-async-exit', 'C17', 'detail/genericcliasyncsession.h', ("            Exit();\n", ""))
B('b12-fix-alive', 'C23', S, ("                if (alive.expired()) return; // the server has been destroyed in the meantime\n", ""))
B('b12-fix-file-exit', 'C20', 'clifilesession.h', ("        in(_in)\n    {", "        ended(false),\n        in(_in)\n    {\n        ExitAction([this](std::ostream&) { ended = true; });"), ("while(!Exited())", "while(!ended)"), ("private:\n    std::istream& in;", "private:\n    bool ended;\n    std::istream& in;"))
B('b12-fix-forget', 'C09', H, ("        if (!latestRecorded) // nothing was kept\n            return;\n        latestRecorded = false;\n        buffer.pop_front();\n        --commands;\n        UndoEviction();", "        if (buffer.empty()) // nothing was kept\n            return;\n        buffer.pop_front();\n        if (commands > 0)\n            --commands;"))
# a command removed by its own handler
B('b12-raw', 'C05', C, ("            const Cmds entries = *cmds; // the handlers can add and remove commands\n            for (auto& cmd: entries)\n                if (cmd->Exec(cmdLine, session))", "            std::vector<Command*> entries;\n            for (auto& cmd: *cmds) entries.push_back(cmd.get());\n            for (auto cmd: entries)\n                if (cmd->Exec(cmdLine, session))"))
B('b12-moved-list', 'C05', C, ("                    const Cmds entries = *cmds; // the handlers can add and remove commands\n", "                    const auto& entries = *cmds;\n"))
