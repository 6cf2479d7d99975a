// Driver for the C++ interface (C26): executes lists of operations with the classes of include/tiropp and records what they observe.
//
//   cpp IN.ndjson OUT.ndjson
//
// IN:  {"id", "ops": [[...]...]}   OUT: {"id", "r": [{"o": text, "d": [destroyed objects], "c": [callback events]}...]}
// Every case runs in a child process; a crash is the last observation.
#define TIRO_HANDLE_CHECKS
#include <nlohmann/json.hpp>
#include <tiropp/api.hpp>

#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <set>

using json = nlohmann::json;

extern "C" void tiro_verif_collect(tiro_vm_t vm);
extern "C" void tiro_verif_fail_after(unsigned long count);
extern "C" unsigned long tiro_verif_fail_remaining();

namespace {

std::vector<int> destroyed;
std::vector<std::string> events;

/// A native object, reports its destruction.
struct Obj {
    int id;
    explicit Obj(int id_) : id(id_) {}
    Obj(Obj&& o) noexcept : id(std::exchange(o.id, 0)) {}
    ~Obj() {
        if (id) destroyed.push_back(id);
        id = 0;
    }
};

std::string show(const tiro::handle& h, int depth);
std::string text_of(const std::string& s);

/// A callback, reports its invocation and its destruction.
struct Callback {
    int id;
    explicit Callback(int id_) : id(id_) {}
    Callback(Callback&& o) noexcept : id(std::exchange(o.id, 0)) {}
    ~Callback() {
        if (id) events.push_back("drop " + std::to_string(id));
        id = 0;
    }
    void operator()(tiro::vm& v, const tiro::coroutine& coro) {
        events.push_back("call " + std::to_string(id) + (v.raw_vm() == coro.raw_vm() ? " " : " other vm ") + show(coro.result(), 3));
    }
};

struct Token {
    int vm;
    tiro::async_token token;
};

std::unique_ptr<tiro::vm> vms[2];
std::map<std::string, tiro::handle> slots;
std::vector<std::optional<Token>> tokens;
std::unique_ptr<tiro::native_type<Obj>> types[2], spare[2];

using tiro::handle;

handle& slot(const json& name) {
    return slots.at(name.get<std::string>());
}
tiro::vm& machine(const json& j) {
    return *vms[j.get<int>()];
}
int number_of(const tiro::vm& v) {
    return vms[0] && vms[0]->raw_vm() == v.raw_vm() ? 0 : 1;
}
void put(const json& name, handle h) {
    const std::string n = name.get<std::string>();
    slots.erase(n);
    slots.emplace(n, std::move(h));
}
std::string bytes(const json& j) {
    std::string r;
    for (auto& b : j) r += char(b.get<int>());
    return r;
}

/// Bytes that are not letters, digits or simple punctuation are shown in hexadecimal notation.
std::string text_of(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (isalnum(c) || c == ' ' || c == '.' || c == '-' || c == '_') {
            r += char(c);
        } else {
            char b[8];
            snprintf(b, sizeof b, "%%%02x", c);
            r += b;
        }
    }
    return r;
}

/// The messages of exceptions that the C++ interface itself produces, "other" for the machine's own ones.
std::string message_of(const std::string& m) {
    static const char* const known[] = {"boom", "unknown exception", "Invalid handle", "Handles that belong to different virtual machines must not be mixed", "stop", "Bad handle cast (", "tiro::error: "};
    for (auto* k : known)
        if (m.rfind(k, 0) == 0) return m.substr(0, m.find('\n'));
    return "other";
}

std::string number(double d) {
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

std::string show(const handle& h, int depth) {
    if (!h.valid()) return "invalid";
    using namespace tiro;
    if (depth < 0) return "...";
    auto sub = [&](const handle& x) { return show(x, depth - 1); };
    switch (h.kind()) {
    case value_kind::null: return "null";
    case value_kind::boolean: return h.as<boolean>().value() ? "true" : "false";
    case value_kind::integer: return "i" + std::to_string(h.as<integer>().value());
    case value_kind::float_: return "f" + number(h.as<float_>().value());
    case value_kind::string: {
        auto s = h.as<string>();
        return "s:" + text_of(s.value()) + (s.view() == s.value() ? "" : " view differs");
    }
    case value_kind::buffer: {
        auto b = h.as<buffer>();
        std::string r = "buffer " + std::to_string(b.size());
        for (size_t i = 0; i < b.size(); ++i) r += " " + std::to_string(b.data()[i]);
        return r;
    }
    case value_kind::tuple: {
        auto t = h.as<tuple>();
        std::string r = "(";
        for (size_t i = 0; i < t.size(); ++i) r += sub(t.get(i)) + ", ";
        return r + ")";
    }
    case value_kind::array: {
        auto t = h.as<array>();
        std::string r = "[";
        for (size_t i = 0; i < t.size(); ++i) r += sub(t.get(i)) + ", ";
        return r + "]";
    }
    case value_kind::record: {
        auto rec = h.as<record>();
        auto keys = rec.keys();
        std::map<std::string, std::string> fields;
        for (size_t i = 0; i < keys.size(); ++i) {
            auto k = keys.get(i).as<string>();
            fields[text_of(k.value())] = sub(rec.get(k));
        }
        std::string r = "{";
        for (auto& [k, x] : fields) r += k + ": " + x + ", ";
        return r + "}";
    }
    case value_kind::record_schema: return "schema";
    case value_kind::result: {
        auto r = h.as<result>();
        if (r.is_success() == r.is_error()) return "inconsistent result";
        return r.is_success() ? "ok " + sub(r.value()) : "fail " + sub(r.error());
    }
    case value_kind::exception: return "exception " + message_of(h.as<exception>().message().value());
    case value_kind::coroutine: {
        auto c = h.as<coroutine>();
        return std::string("coroutine") + (c.started() ? " started" : "") + (c.completed() ? " completed" : "");
    }
    case value_kind::function: return "function";
    case value_kind::module: return "module";
    case value_kind::type: return "type " + h.as<type>().name().value();
    case value_kind::native: {
        auto n = h.as<native>();
        for (int t = 0; t < 2; ++t) {
            auto& ty = types[t]->valid() ? types[t] : spare[t];
            if (ty->is_instance(n)) return std::string("native ") + "AB"[t] + (ty->is_destroyed(n) ? " destroyed" : " " + std::to_string(ty->access(n)->id));
        }
        return "native ?";
    }
    default: return std::string("? ") + to_string(h.kind());
    }
}

// ---- functions -----------------------------------------------------------------------------------------------------------------

handle foreign(tiro::vm& v) {
    return handle(vms[1 - number_of(v)]->raw_vm());
}
handle moved_from(tiro::vm& v) {
    handle a(v.raw_vm());
    handle b(std::move(a));
    return a;
}

template<int N>
handle sync_body(tiro::vm& v, tiro::sync_frame& f) {
    switch (N) {
    case 0: return f.closure();
    case 1: return f.arg(0);
    case 2: throw std::runtime_error("boom");
    case 3: throw 42;
    case 4: return moved_from(v);
    case 5: return foreign(v);
    case 6: return make_integer(v, f.arg(0).as<tiro::integer>().value());
    case 7: return make_integer(v, int64_t(f.arg_count()));
    default: return f.arg(100);
    }
}

template<int N>
void async_body(tiro::vm& v, tiro::async_frame& f) {
    switch (N) {
    case 0: f.return_value(f.closure()); break;
    case 1: f.return_value(f.arg(0)); break;
    case 2: throw std::runtime_error("boom");
    case 3: throw 42;
    case 4: f.return_value(moved_from(v)); break;
    case 5:
        tokens.push_back(Token{number_of(v), f.token()});
        f.yield();
        break;
    case 6: f.return_value(f.closure()); throw std::runtime_error("boom");
    case 7: f.panic_msg("stop"); break;
    case 8: f.return_value(foreign(v)); break;
    case 9: f.panic_msg("boom"); f.return_value(make_integer(v, int64_t(f.arg_count()))); break;
    case 10:
        // the last action counts, the token is of no use
        tokens.push_back(Token{number_of(v), f.token()});
        f.yield();
        f.return_value(f.closure());
        break;
    case 11:
        tokens.push_back(Token{number_of(v), f.token()});
        f.yield();
        throw std::runtime_error("boom");
    }
}

template<int N>
void resumable_body(tiro::vm& v, tiro::resumable_frame& f) {
    const bool first = f.state() == tiro::resumable_frame::start;
    switch (N) {
    case 0: f.return_value(f.closure()); break;
    case 1:
        if (first) {
            f.set_local(1, f.arg(0));
            f.set_state(1);
        } else {
            f.return_value(f.local(1));
        }
        break;
    case 2:
        if (first)
            f.invoke(1, f.arg(0).as<tiro::function>());
        else
            f.return_value(f.invoke_return());
        break;
    case 3: throw std::runtime_error("boom");
    case 4:
        if (first) {
            auto fn = f.arg(0).as<tiro::function>();
            auto args = f.arg(1).as<tiro::tuple>();
            f.invoke(1, fn, args);
        } else {
            f.return_value(make_success(v, f.invoke_return()));
        }
        break;
    case 5: f.set_state(tiro::resumable_frame::end); break;
    case 6: f.panic_msg("stop"); break;
    case 7: f.return_value(make_integer(v, int64_t(f.local_count() * 100 + f.arg_count()))); break;
    case 8: f.set_local(0, moved_from(v)); break;
    case 9:
        // keeps a value over a call
        if (first) {
            f.set_local(0, f.arg(1));
            f.invoke(7, f.arg(0).as<tiro::function>());
        } else {
            if (f.state() != 7) throw std::logic_error("wrong state");
            f.return_value(f.local(0));
        }
        break;
    case 10: f.return_value(f.closure()); throw std::runtime_error("boom");
    case 11: f.invoke(1, f.arg(0).as<tiro::function>()); throw std::runtime_error("boom");
    case 12: f.panic_msg("stop"); f.return_value(f.closure()); break;
    case 13:
        if (!first) throw std::logic_error("called again");
        f.invoke(1, f.arg(0).as<tiro::function>());
        f.return_value(f.closure());
        break;
    }
}

template<int... N>
tiro::function make_function(tiro::vm& v, char flavour, int n, const tiro::string& name, size_t argc, const handle& closure, std::integer_sequence<int, N...>) {
    std::optional<tiro::function> r;
    if (flavour == 's') ((n == N ? void(r.emplace(tiro::make_sync_function<sync_body<N>>(v, name, argc, closure))) : void()), ...);
    if (flavour == 'a') ((n == N ? void(r.emplace(tiro::make_async_function<async_body<N>>(v, name, argc, closure))) : void()), ...);
    if (flavour == 'r') ((n == N ? void(r.emplace(tiro::make_resumable_function<resumable_body<N>>(v, name, argc, 2, closure))) : void()), ...);
    return std::move(r.value());
}

// ---- kinds ---------------------------------------------------------------------------------------------------------------------

template<typename F>
auto with_kind(const std::string& k, F f) {
    using namespace tiro;
    if (k == "null") return f((null*) nullptr);
    if (k == "bool") return f((boolean*) nullptr);
    if (k == "int") return f((integer*) nullptr);
    if (k == "float") return f((float_*) nullptr);
    if (k == "str") return f((tiro::string*) nullptr);
    if (k == "buf") return f((buffer*) nullptr);
    if (k == "fn") return f((function*) nullptr);
    if (k == "tuple") return f((tuple*) nullptr);
    if (k == "rec") return f((record*) nullptr);
    if (k == "schema") return f((record_schema*) nullptr);
    if (k == "arr") return f((array*) nullptr);
    if (k == "result") return f((result*) nullptr);
    if (k == "exc") return f((exception*) nullptr);
    if (k == "coro") return f((coroutine*) nullptr);
    if (k == "mod") return f((module*) nullptr);
    if (k == "nat") return f((native*) nullptr);
    return f((type*) nullptr);
}

std::string yes(bool b) {
    return b ? "true" : "false";
}

// ---- compiler ------------------------------------------------------------------------------------------------------------------

std::string code_of(const std::function<void()>& f);

std::string compile(const std::string& mode) {
    using namespace tiro;
    const std::string good = "export func f() { return 1; }", bad = "export func f( { return 1 }", doubtful = "export func f() { return 1 / 0; }";
    std::string r;
    compiler c("mod");
    int messages = 0;
    bool complete = true;
    if (mode == "throw" || mode == "warn")
        c.set_message_callback([&](const compiler_message&) { ++messages; throw std::runtime_error("boom"); });
    else if (mode == "throwint")
        c.set_message_callback([&](const compiler_message&) { ++messages; throw 7; });
    else
        c.set_message_callback([&](const compiler_message& m) {
            ++messages;
            complete = complete && m.severity == severity::error && m.file == "file" && m.line == 1 && m.column > 0 && !m.text.empty();
        });
    const bool attach = mode == "attach";
    if (attach)
        for (auto a : {attachment::cst, attachment::ast, attachment::ir, attachment::bytecode}) c.request_attachment(a);
    if (mode == "none") {
        r = code_of([&] { c.run(); });
        return r + " " + yes(c.has_module());
    }
    c.add_file("file", mode == "ok" || attach || mode == "move" ? good : mode == "warn" ? doubtful : bad);
    r += yes(c.has_module()) + " ";
    r += code_of([&] { c.take_module(); }) + " ";
    if (mode == "move") {
        compiler d(std::move(c));
        r += code_of([&] { d.run(); });
        return r + " " + yes(d.has_module());
    }
    r += code_of([&] { c.run(); }) + " ";
    r += std::string(messages ? "messages " : "silent ") + (mode == "throw" || mode == "throwint" || mode == "warn" ? std::to_string(messages) : yes(complete)) + " ";
    r += yes(c.has_module()) + " ";
    if (attach) {
        for (auto a : {attachment::cst, attachment::ast, attachment::ir, attachment::bytecode}) {
            std::string text;
            r += code_of([&] { text = c.get_attachment(a); });
            r += " " + yes(!text.empty()) + " ";
        }
    }
    r += code_of([&] { c.add_file("x", good); }) + " ";
    r += code_of([&] { c.run(); }) + " ";
    r += code_of([&] { compiled_module m = c.take_module(); compiled_module n(std::move(m)); n.raw_module() ? void() : throw 1; }) + " ";
    return r;
}

// ---- operations ----------------------------------------------------------------------------------------------------------------

std::string run(const json& op);

std::string guarded(const std::function<std::string()>& f) {
    try {
        return f();
    } catch (const tiro::bad_handle_check& e) {
        return std::string("check ") + e.message();
    } catch (const tiro::bad_handle_cast& e) {
        if (std::string(e.what()) != std::string(e.message()) + " (" + e.details() + ")") return "inconsistent texts";
        return std::string("cast ") + e.details();
    } catch (const tiro::api_error& e) {
        std::string what = std::string("tiro::error: ") + e.name() + "\n    " + e.message();
        if (*e.details()) what += std::string("\n    ") + e.details();
        if (what != e.what() || std::string(e.name()) != tiro::name(e.code()) || std::string(e.message()) != tiro::message(e.code())) return "inconsistent texts";
        return std::string("api ") + e.name();
    } catch (const tiro::generic_error& e) {
        return std::string("error ") + e.message();
    } catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    } catch (...) {
        return "unknown exception";
    }
}
std::string code_of(const std::function<void()>& f) {
    return guarded([&] { f(); return std::string("done"); });
}

std::string run(const json& op) {
    using namespace tiro;
    const std::string o = op[0];
    const std::string done = "done";
    auto arg = [&](size_t i) -> handle& { return slot(op[i]); };
    if (o == "new") return put(op[1], handle(machine(op[2]).raw_vm())), done;
    if (o == "mk") {
        tiro::vm& v = machine(op[2]);
        const std::string k = op[3];
        handle r = k == "null" ? handle(make_null(v)) : k == "bool" ? handle(make_boolean(v, op[4].get<bool>())) : k == "int" ? handle(make_integer(v, std::stoll(op[4].get<std::string>())))
                 : k == "float" ? handle(make_float(v, strtod(op[4].get<std::string>().c_str(), nullptr))) : k == "str" ? handle(make_string(v, bytes(op[5])))
                 : k == "tuple" ? handle(make_tuple(v, op[4].get<size_t>())) : k == "arr" ? handle(make_array(v, op[4].get<size_t>())) : handle(make_buffer(v, op[4].get<size_t>()));
        return put(op[1], std::move(r)), done;
    }
    if (o == "ok") return put(op[1], make_success(machine(op[2]), arg(3))), done;
    if (o == "fail") return put(op[1], make_error(machine(op[2]), arg(3))), done;
    if (o == "schema") return put(op[1], make_record_schema(machine(op[2]), arg(3).as<array>())), done;
    if (o == "rec") return put(op[1], make_record(machine(op[2]), arg(3).as<record_schema>())), done;
    if (o == "nat") {
        Obj obj(op[4].get<int>());
        return put(op[1], types[op[3].get<int>()]->make(machine(op[2]), std::move(obj))), done;
    }
    if (o == "copy") {
        handle h(arg(2));
        return put(op[1], std::move(h)), done;
    }
    if (o == "assign") return arg(1) = static_cast<const handle&>(arg(2)), done;
    if (o == "move") {
        handle h(std::move(arg(2)));
        return put(op[1], std::move(h)), done;
    }
    if (o == "massign") return arg(1) = std::move(arg(2)), done;
    if (o == "drop") return slots.erase(op[1].get<std::string>()), done;
    if (o == "valid") return yes(arg(1).valid()) + (arg(1).raw_vm() == vms[0]->raw_vm() ? " 0" : " 1");
    if (o == "kind") return to_string(arg(1).kind());
    if (o == "is") return yes(with_kind(op[2], [&](auto* p) { return arg(1).template is<std::remove_reference_t<decltype(*p)>>(); }));
    if (o == "as") return put(op[1], with_kind(op[3], [&](auto* p) { return handle(static_cast<const handle&>(arg(2)).template as<std::remove_reference_t<decltype(*p)>>()); })), done;
    if (o == "asm") return put(op[1], with_kind(op[3], [&](auto* p) { return handle(std::move(arg(2)).template as<std::remove_reference_t<decltype(*p)>>()); })), done;
    if (o == "same") return yes(same(machine(op[1]), arg(2), arg(3)));
    if (o == "typeof") return put(op[1], arg(2).type_of()), done;
    if (o == "tyname") return arg(1).as<type>().name().value();
    if (o == "str" && arg(2).valid()) {
        const auto k = arg(2).kind();
        if (k != value_kind::null && k != value_kind::boolean && k != value_kind::integer && k != value_kind::string) return "skipped";
    }
    if (o == "str") return put(op[1], arg(2).to_string()), done;
    if (o == "show") return show(arg(1), 3);
    if (o == "size") return op[2] == "tuple" ? std::to_string(arg(1).as<tuple>().size()) : op[2] == "arr" ? std::to_string(arg(1).as<array>().size()) : std::to_string(arg(1).as<buffer>().size());
    if (o == "get") return put(op[1], op[3] == "tuple" ? arg(2).as<tuple>().get(op[4]) : arg(2).as<array>().get(op[4])), done;
    if (o == "set") {
        if (op[2] == "tuple") arg(1).as<tuple>().set(op[3], arg(4));
        else arg(1).as<array>().set(op[3], arg(4));
        return done;
    }
    if (o == "push") return arg(1).as<array>().push(arg(2)), done;
    if (o == "pop") return arg(1).as<array>().pop(), done;
    if (o == "clear") return arg(1).as<array>().clear(), done;
    if (o == "bset") {
        auto b = arg(1).as<buffer>();
        b.data()[op[2].get<size_t>()] = static_cast<unsigned char>(op[3].get<int>());
        return yes(b.is_pinned());
    }
    if (o == "rget") {
        auto r = arg(2).as<record>();
        auto k = arg(3).as<string>();
        return put(op[1], r.get(k)), done;
    }
    if (o == "rset") {
        auto r = arg(1).as<record>();
        auto k = arg(2).as<string>();
        return r.set(k, arg(3)), done;
    }
    if (o == "keys") {
        // sorted, the order is not promised
        auto keys = arg(1).as<record>().keys();
        std::set<std::string> names;
        for (size_t i = 0; i < keys.size(); ++i) names.insert(text_of(keys.get(i).as<string>().value()));
        std::string r;
        for (auto& n : names) r += n + " ";
        return r;
    }
    if (o == "rval") return put(op[1], arg(2).as<result>().value()), done;
    if (o == "rerr") return put(op[1], arg(2).as<result>().error()), done;
    if (o == "isok") {
        auto r = arg(1).as<result>();
        return yes(r.is_success()) + " " + yes(r.is_error());
    }
    if (o == "exmsg") return message_of(arg(1).as<exception>().message().value());
    if (o == "acc") return std::to_string(types[op[1].get<int>()]->access(arg(2).as<native>())->id);
    if (o == "isdes") return yes(types[op[1].get<int>()]->is_destroyed(arg(2).as<native>()));
    if (o == "inst") return yes(types[op[1].get<int>()]->is_instance(arg(2).as<native>()));
    if (o == "des") return types[op[1].get<int>()]->destroy(arg(2).as<native>()), done;
    if (o == "twin") return *types[1] = tiro::native_type<Obj>(types[0]->name()), done;
    if (o == "tname") return types[op[1].get<int>()]->name();
    if (o == "tmove") {
        const int t = op[1];
        if (spare[t]) *types[t] = std::move(*spare[t]), spare[t].reset();
        else spare[t] = std::make_unique<native_type<Obj>>(std::move(*types[t]));
        return yes(types[t]->valid());
    }
    if (o == "fn") {
        auto name = arg(6).as<string>();
        const std::string f = op[3];
        return put(op[1], make_function(machine(op[2]), f[0], std::stoi(f.substr(1)), name, op[4], arg(5), std::make_integer_sequence<int, 14>())), done;
    }
    if (o == "co") {
        auto f = arg(3).as<function>();
        handle c = op[4] == "-" ? handle(make_coroutine(machine(op[2]), f)) : handle(make_coroutine(machine(op[2]), f, arg(4)));
        return put(op[1], std::move(c)), done;
    }
    if (o == "cb") {
        auto c = arg(1).as<coroutine>();
        return c.set_callback(Callback(op[2].get<int>())), done;
    }
    if (o == "start") return arg(1).as<coroutine>().start(), done;
    if (o == "started") return yes(arg(1).as<coroutine>().started());
    if (o == "completed") return yes(arg(1).as<coroutine>().completed());
    if (o == "result") return put(op[1], arg(2).as<coroutine>().result()), done;
    if (o == "async") {
        auto f = arg(2).as<function>();
        if (op[3] == "-") run_async(machine(op[1]), f, Callback(op[4].get<int>()));
        else run_async(machine(op[1]), f, arg(3), Callback(op[4].get<int>()));
        return done;
    }
    if (o == "run") return machine(op[1]).run_ready(), done;
    if (o == "ready") return yes(machine(op[1]).has_ready());
    if (o == "tokret" || o == "tokpanic" || o == "tokdrop" || o == "tokmove" || o == "tokassign") {
        const size_t i = op[1].get<size_t>() - 1;
        if (i >= tokens.size() || !tokens[i]) return "no token";
        if (o == "tokassign") {
            const size_t k = op[2].get<size_t>() - 1;
            if (k >= tokens.size() || !tokens[k]) return "no token";
            return tokens[i]->token = std::move(tokens[k]->token), done;
        }
        if (o == "tokret") return tokens[i]->token.return_value(arg(2)), done;
        if (o == "tokpanic") return tokens[i]->token.panic_msg("stop"), done;
        if (o == "tokdrop") return tokens[i].reset(), done;
        Token t(std::move(*tokens[i]));
        tokens[i].reset();
        tokens[i].emplace(std::move(t));
        return done;
    }
    if (o == "mod") {
        std::vector<std::pair<std::string, handle>> exports;
        for (auto& e : op[4]) exports.emplace_back(e[0].get<std::string>(), slot(e[1]));
        return put(op[1], make_module(machine(op[2]), op[3].get<std::string>(), exports)), done;
    }
    if (o == "mload") {
        auto m = arg(2).as<module>();
        return load_module(machine(op[1]), m), done;
    }
    if (o == "mget") return put(op[1], arg(2).as<module>().get_export(op[3].get<std::string>())), done;
    if (o == "export") return put(op[1], get_export(machine(op[2]), op[3].get<std::string>(), op[4].get<std::string>())), done;
    if (o == "load") {
        compiler c("lib");
        c.add_file("lib", "export func id(x) { return x; }\nexport func wrap(x) = [x];\nexport const seven = 7;\n");
        c.run();
        return machine(op[1]).load(c.take_module()), done;
    }
    if (o == "compile") return compile(op[1]);
    if (o == "settings") {
        vm_settings s;
        s.page_size = op[1];
        s.max_heap_size = op[2];
        std::string out;
        s.print_stdout = [&](std::string_view m) { out += m; };
        tiro::vm v(s);
        v.userdata() = 5;
        v.load_std();
        compiler c("p");
        c.add_file("p", "import std; export func p() { std.print(\"a\", 1); }");
        c.run();
        v.load(c.take_module());
        std::string r;
        run_async(v, get_export(v, "p", "p").as<function>(), [&](tiro::vm& w, const coroutine& co) { r = yes(&w == &v && std::any_cast<int>(w.userdata()) == 5) + " " + show(co.result(), 2); });
        v.run_ready();
        return std::to_string(v.page_size()) + " " + std::to_string(v.max_heap_size()) + " " + r + " " + text_of(out);
    }
    if (o == "gc") return tiro_verif_collect(machine(op[1]).raw_vm()), done;
    if (o == "fault") {
        tiro_verif_fail_after(op[1].get<unsigned long>());
        std::string r = guarded([&] { return run(op[2]); });
        const bool fired = tiro_verif_fail_remaining() == 0;
        tiro_verif_fail_after(0);
        return (fired ? "fired " : "not fired ") + r;
    }
    if (o == "end") {
        slots.clear();
        tokens.clear();
        vms[0].reset();
        vms[1].reset();
        return done;
    }
    return "unknown operation " + o;
}

void execute(const json& c, int fd) {
    auto emit = [&](const std::string& s) {
        std::string line = s + "\n";
        size_t p = 0;
        while (p < line.size()) {
            ssize_t n = write(fd, line.data() + p, line.size() - p);
            if (n <= 0) _exit(3);
            p += size_t(n);
        }
    };
    vms[0] = std::make_unique<tiro::vm>();
    vms[1] = std::make_unique<tiro::vm>();
    types[0] = std::make_unique<tiro::native_type<Obj>>("A");
    types[1] = std::make_unique<tiro::native_type<Obj>>("B");
    for (auto& op : c["ops"]) {
        destroyed.clear();
        events.clear();
        const std::string r = guarded([&] { return run(op); });
        emit(json{{"o", r}, {"d", destroyed}, {"c", events}}.dump(-1, ' ', false, json::error_handler_t::replace));
    }
}

} // namespace

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::vector<json> cases;
    for (std::string line; std::getline(in, line);) cases.push_back(json::parse(line));
    FILE* out = fopen(argv[2], "w");
    const size_t jobs = 8;
    struct Job { pid_t pid; int fd; size_t index; std::string data; };
    std::vector<Job> running;
    std::vector<std::string> results(cases.size());
    size_t next = 0;
    while (next < cases.size() || !running.empty()) {
        while (next < cases.size() && running.size() < jobs) {
            int p[2];
            if (pipe(p)) return 2;
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                rlimit r{3ull << 30, 3ull << 30};
                setrlimit(RLIMIT_AS, &r);
                rlimit core{0, 0};
                setrlimit(RLIMIT_CORE, &core);
                alarm(60);
                if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(4);
                execute(cases[next], p[1]);
                _exit(0);
            }
            close(p[1]);
            running.push_back({pid, p[0], next++, ""});
        }
        std::vector<pollfd> fds;
        for (auto& j : running) fds.push_back({j.fd, POLLIN, 0});
        poll(fds.data(), fds.size(), 1000);
        for (size_t i = 0; i < fds.size(); ++i) {
            if (!fds[i].revents) continue;
            Job& j = running[i];
            char buf[65536];
            ssize_t n = read(j.fd, buf, sizeof buf);
            if (n > 0) {
                j.data.append(buf, size_t(n));
                continue;
            }
            close(j.fd);
            j.fd = -1;
            int status = 0;
            waitpid(j.pid, &status, 0);
            json r = json::array();
            size_t pos = 0, e;
            while ((e = j.data.find('\n', pos)) != std::string::npos) {
                r.push_back(json::parse(j.data.substr(pos, e - pos)));
                pos = e + 1;
            }
            if (status != 0) r.push_back(json{{"o", WIFSIGNALED(status) ? "crash " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))}, {"d", json::array()}, {"c", json::array()}});
            results[j.index] = json{{"id", cases[j.index]["id"]}, {"r", r}}.dump() + "\n";
        }
        std::vector<Job> still;
        for (auto& j : running)
            if (j.fd >= 0) still.push_back(std::move(j));
        running.swap(still);
    }
    for (auto& r : results) fwrite(r.data(), 1, r.size(), out);
    fclose(out);
    return 0;
}
