"""Trials: conversions of floating point and user types."""
F = 'detail/fromstring.h'
HEAD = '''template <>
inline float from_string(const std::string& s)
{'''
def mk(kind):
    def f(id, props, fl, *edits, **k): return dict(id=id, props=props.split(), kind=kind, edits=[(fl, a, b) for a, b in edits], **k)
    return f
B, R = mk('bug'), mk('ref')
FB = '''    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
        throw bad_conversion();
    std::string::size_type sz;
    float result = {};
    try {
        result = std::stof(s, &sz);
    } catch (const std::exception&) {
        throw bad_conversion();
    }
    if (sz != s.size())
        throw bad_conversion();
    return result;'''
TRIALS = [
 R('cf-helper', 'C02', F, (HEAD, '''template <typename T, typename F>
inline T floating_from_string(const std::string& s, F conv)
{
    for (char c : s)
        if (std::isspace(static_cast<unsigned char>(c))) throw bad_conversion();
    std::string::size_type read = 0;
    T result{};
    try { result = conv(s, &read); }
    catch (const std::exception&) { throw bad_conversion(); }
    if (read < s.size()) throw bad_conversion();
    return result;
}
''' + HEAD), (FB, '    return floating_from_string<float>(s, [](const std::string& x, std::string::size_type* p){ return std::stof(x, p); });')),
 R('cf-inside', 'C02', F, (FB, '''    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c) != 0;} ) )
        throw bad_conversion();
    try {
        std::size_t sz = 0;
        const float result = std::stof(s, &sz);
        if (sz == s.size())
            return result;
    } catch (const std::invalid_argument&) {
    } catch (const std::out_of_range&) {
    }
    throw bad_conversion();''')),
 R('cf-user', 'C02', F, ('''    std::stringstream interpreter;
    T result;

    if(!(interpreter << s) ||
        !(interpreter >> result) ||
        !(interpreter >> std::ws).eof())
        throw bad_conversion();

    return result;''', '''    std::istringstream interpreter(s);
    T result;
    interpreter >> result;
    if (interpreter.fail())
        throw bad_conversion();
    interpreter >> std::ws;
    if (!interpreter.eof())
        throw bad_conversion();
    return result;''')),
 R('cf-findif', 'C02', F, (FB, '''    const auto blank = std::find_if(s.cbegin(), s.cend(), [](char c){return std::isspace(c);});
    if (blank != s.cend())
        throw bad_conversion();
    std::string::size_type sz;
    float result;
    try {
        result = std::stof(s, &sz);
    } catch (...) {
        throw bad_conversion();
    }
    if (sz == s.size())
        return result;
    throw bad_conversion();''')),
 B('cf-double', 'C02', F, ('result = std::stof(s, &sz);', 'result = static_cast<float>(std::stod(s, &sz));')),
 B('cf-first', 'C02', F, (FB, FB.replace('std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} )', '!s.empty() && s.back() == 32'))),
 B('cf-range', 'C02', F, ('''        result = std::stod(s, &sz);
    } catch (const std::exception&) {''', '''        result = std::stod(s, &sz);
    } catch (const std::out_of_range&) {
        return result;
    } catch (const std::exception&) {''')),
 B('cf-ws', 'C02', F, ('!(interpreter >> std::ws).eof())', '!interpreter.eof())')),
]
