// Verification host: executes sessions of host commands against the real compiler and virtual machine, using only the
// public C interface (plus the TIRO_VERIF_HOOKS functions), and writes every observation as one JSON array per session.
//
//   host IN.ndjson OUT.ndjson [jobs]
//
// IN: one session per line: {"id": n, "cmds": [[cmd, args...], ...], "timeout": seconds}
// OUT: one line per session: {"id": n, "ev": [[...], ...]}; a crashed session ends with ["crash", signal].
#include <tiro/api.h>

#include <nlohmann/json.hpp>

#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using json = nlohmann::ordered_json;

extern "C" void tiro_verif_set_gc_period(unsigned long period);
extern "C" void tiro_verif_collect(tiro_vm_t vm);
extern "C" size_t tiro_verif_heap_total(tiro_vm_t vm);
extern "C" void tiro_verif_fail_after(unsigned long count);
extern "C" unsigned long tiro_verif_fail_remaining();

namespace {

int g_out = -1;
thread_local bool g_quiet = false;
size_t g_events = 0;
size_t g_bytes = 0;
std::mutex g_lock;
thread_local int t_machine = -1; // several machines: the one that is working (on this thread)
void interleave();

void emit(const json& ev) {
    if (g_quiet)
        return;
    std::string line = ev.dump(-1, ' ', true, json::error_handler_t::replace);
    if (t_machine >= 0) line = "[\"m\"," + std::to_string(t_machine) + "," + line + "]";
    line += '\n';
    std::lock_guard guard(g_lock);
    ++g_events;
    g_bytes += line.size();
    // a runaway session is cut off
    if (g_events > 4000 || g_bytes > 20000000) {
        const char msg[] = "[\"toomany\"]\n";
        (void) !write(g_out, msg, sizeof msg - 1);
        _exit(0);
    }
    size_t off = 0;
    while (off < line.size()) {
        ssize_t n = write(g_out, line.data() + off, line.size() - off);
        if (n <= 0)
            _exit(3);
        off += size_t(n);
    }
}

const char* code_name(tiro_errc_t c) {
    switch (c) {
    case TIRO_OK: return "OK";
    case TIRO_ERROR_BAD_STATE: return "BAD_STATE";
    case TIRO_ERROR_BAD_ARG: return "BAD_ARG";
    case TIRO_ERROR_BAD_SOURCE: return "BAD_SOURCE";
    case TIRO_ERROR_BAD_TYPE: return "BAD_TYPE";
    case TIRO_ERROR_BAD_KEY: return "BAD_KEY";
    case TIRO_ERROR_MODULE_EXISTS: return "MODULE_EXISTS";
    case TIRO_ERROR_MODULE_NOT_FOUND: return "MODULE_NOT_FOUND";
    case TIRO_ERROR_EXPORT_NOT_FOUND: return "EXPORT_NOT_FOUND";
    case TIRO_ERROR_OUT_OF_BOUNDS: return "OUT_OF_BOUNDS";
    case TIRO_ERROR_ALLOC: return "ALLOC";
    case TIRO_ERROR_INTERNAL: return "INTERNAL";
    }
    return "UNKNOWN";
}

// Collects the error of one call and returns its name.
struct Err {
    tiro_error_t e = nullptr;
    ~Err() { tiro_error_free(e); }
    operator tiro_error_t*() { return &e; }
    std::string take() {
        std::string r = e ? code_name(tiro_error_errc(e)) : "OK";
        tiro_error_free(e);
        e = nullptr;
        return r;
    }
};

struct Session;

struct Callback;
thread_local Callback* null_callback = nullptr; // the callback that was registered without userdata (tag "n…")

struct Callback {
    Session* session;
    std::string vm;
    std::string tag;
    json actions;

    ~Callback() {
        if (null_callback == this) null_callback = nullptr;
    }
};

struct NativeDef {
    Session* session;
    std::string vm;
    std::string name;
    std::string flavour;
    json program;
};

struct Vm {
    tiro_vm_t vm = nullptr;
    std::map<std::string, tiro_handle_t> regs;
    std::map<std::string, tiro_async_token_t> tokens;
    bool freed = false;
};

tiro_string_t str(const std::string& s) {
    return tiro_string_t{s.data(), s.size()};
}

// Scoped temporary handle.
struct Tmp {
    tiro_handle_t h;
    explicit Tmp(tiro_vm_t vm) {
        Err err;
        h = tiro_global_new(vm, err);
        if (!h) {
            emit({"hosterror", "global", err.take()});
            _exit(4);
        }
    }
    ~Tmp() { tiro_global_free(h); }
    Tmp(const Tmp&) = delete;
    operator tiro_handle_t() const { return h; }
};

struct Session {
    int machine = -1;
    std::map<std::string, Vm> vms;
    std::vector<std::unique_ptr<NativeDef>> natives;
    std::vector<std::unique_ptr<Callback>> callbacks;
    std::map<std::string, tiro_native_type_t> types;
    std::map<std::string, std::pair<const void*, size_t>> remembered;

    Vm& vm(const std::string& n) { return vms.at(n); }

    tiro_handle_t reg(Vm& v, const std::string& name) {
        auto it = v.regs.find(name);
        if (it != v.regs.end())
            return it->second;
        Err err;
        tiro_handle_t h = tiro_global_new(v.vm, err);
        v.regs[name] = h;
        return h;
    }
    json exec(const json& c);
    void command(const json& c) {
        std::string name = c[0];
        bool quiet = false;
        if (!name.empty() && name[0] == '-') {
            quiet = true;
            name = name.substr(1);
            json c2 = c;
            c2[0] = name;
            exec(c2);
            return;
        }
        json r = exec(c);
        if (!r.is_null() && !quiet)
            emit(r);
    }
};

thread_local bool strings_as_bytes = false; // rendering for the command "bytes"

thread_local bool fault_armed = false, fault_fired = false, fault_run = false; // command "fault"

// the requested failure is meant for the command, not for the observation of its effects
void disarm() {
    if (!fault_armed || fault_run) return;
    fault_fired = tiro_verif_fail_remaining() == 0;
    fault_armed = false;
    tiro_verif_fail_after(0);
}

json render(tiro_vm_t vm, tiro_handle_t h, int depth = 0) {
    Err err;
    disarm();
    if (depth > 3 && !strings_as_bytes)
        return {"deep"};
    switch (tiro_value_kind(vm, h)) {
    case TIRO_KIND_NULL: return {"null"};
    case TIRO_KIND_BOOLEAN: return {"b", tiro_boolean_value(vm, h)};
    case TIRO_KIND_INTEGER: return {"i", std::to_string(tiro_integer_value(vm, h))};
    case TIRO_KIND_FLOAT: {
        char buf[64];
        double d = tiro_float_value(vm, h);
        double u = d * 1024; // exact
        if (d > -1e6 && d < 1e6 && u == double(int64_t(u)) && !(d == 0 && std::signbit(d)))
            snprintf(buf, sizeof buf, "%" PRId64 "/1024", int64_t(u));
        else
            snprintf(buf, sizeof buf, "%.17g", d);
        return {"f", std::string(buf)};
    }
    case TIRO_KIND_STRING: {
        tiro_string_t s{};
        tiro_string_value(vm, h, &s, err);
        if (strings_as_bytes) {
            json bytes = json::array();
            for (size_t i = 0; i < s.length; ++i)
                bytes.push_back((unsigned char) s.data[i]);
            return json::array({"s", bytes});
        }
        return {"s", std::string(s.data, s.length)};
    }
    case TIRO_KIND_BUFFER: {
        json bytes = json::array();
        size_t n = tiro_buffer_size(vm, h);
        unsigned char* p = tiro_buffer_data(vm, h);
        for (size_t i = 0; i < n && i < 64; ++i)
            bytes.push_back(p[i]);
        return {"buf", std::to_string(n), bytes};
    }
    case TIRO_KIND_FUNCTION: return {"fn"};
    case TIRO_KIND_TUPLE: {
        json items = json::array();
        Tmp t(vm);
        for (size_t i = 0, n = tiro_tuple_size(vm, h); i < n; ++i) {
            tiro_tuple_get(vm, h, i, t, err);
            items.push_back(render(vm, t, depth + 1));
        }
        return {"t", items};
    }
    case TIRO_KIND_ARRAY: {
        json items = json::array();
        Tmp t(vm);
        for (size_t i = 0, n = tiro_array_size(vm, h); i < n; ++i) {
            tiro_array_get(vm, h, i, t, err);
            items.push_back(render(vm, t, depth + 1));
        }
        return {"a", items};
    }
    case TIRO_KIND_RECORD: {
        json items = json::array();
        Tmp keys(vm), k(vm), t(vm);
        tiro_record_keys(vm, h, keys, err);
        for (size_t i = 0, n = tiro_array_size(vm, keys); i < n; ++i) {
            tiro_array_get(vm, keys, i, k, err);
            tiro_record_get(vm, h, k, t, err);
            tiro_string_t s{};
            tiro_string_value(vm, k, &s, err);
            json key = std::string(s.data, s.length);
            items.push_back(json::array({key, render(vm, t, depth + 1)}));
        }
        std::sort(items.begin(), items.end(), [](const json& a, const json& b) {
            return a[0].get<std::string>() < b[0].get<std::string>();
        });
        return {"r", items};
    }
    case TIRO_KIND_RECORD_SCHEMA: return {"schema"};
    case TIRO_KIND_RESULT: {
        Tmp t(vm);
        if (tiro_result_is_success(vm, h)) {
            tiro_result_value(vm, h, t, err);
            return {"ok", render(vm, t, depth + 1)};
        }
        if (tiro_result_is_error(vm, h)) {
            tiro_result_error(vm, h, t, err);
            return {"err", render(vm, t, depth + 1)};
        }
        return {"badresult"};
    }
    case TIRO_KIND_EXCEPTION: {
        Tmp t(vm);
        tiro_exception_message(vm, h, t, err);
        tiro_string_t s{};
        tiro_string_value(vm, t, &s, err);
        json ex = {"ex", std::string(s.data, s.length)};
        // the stack trace: one function per line after the name of the coroutine
        tiro_exception_trace(vm, h, t, err);
        if (tiro_value_kind(vm, t) == TIRO_KIND_STRING) {
            tiro_string_value(vm, t, &s, err);
            std::string text(s.data, s.length), sep = "\n  - ";
            json names = json::array();
            if (text.find(":\n") == std::string::npos)
                names.push_back("malformed: " + text);
            for (size_t p = text.find(sep); p != std::string::npos;) {
                size_t q = text.find(sep, p + 1);
                names.push_back(text.substr(p + sep.size(), q == std::string::npos ? q : q - p - sep.size()));
                p = q;
            }
            ex.push_back(names);
        }
        return ex;
    }
    case TIRO_KIND_COROUTINE: return {"co"};
    case TIRO_KIND_MODULE: return {"mod"};
    case TIRO_KIND_TYPE: {
        Tmp t(vm);
        tiro_type_name(vm, h, t, err);
        tiro_string_t s{};
        tiro_string_value(vm, t, &s, err);
        return {"ty", std::string(s.data, s.length)};
    }
    case TIRO_KIND_NATIVE: {
        const char* p = static_cast<const char*>(tiro_native_data(vm, h));
        size_t n = tiro_native_size(vm, h);
        std::string tag;
        for (size_t i = 0; p && i < n && p[i]; ++i)
            tag += p[i];
        return {"n", tag, std::to_string(n)};
    }
    case TIRO_KIND_INTERNAL: return {"internal"};
    case TIRO_KIND_INVALID: return {"invalid"};
    }
    return {"unknown"};
}

void native_finalizer(void* data, size_t size) {
    std::string tag;
    const char* p = static_cast<const char*>(data);
    for (size_t i = 0; i < size && p[i]; ++i)
        tag += p[i];
    emit({"fin", tag, std::to_string(size)});
}

// Context of an executing native function (any flavour).
struct FrameCtx {
    tiro_vm_t vm;
    tiro_sync_frame_t sync = nullptr;
    tiro_async_frame_t async = nullptr;
    tiro_resumable_frame_t res = nullptr;
    size_t argc() const {
        return sync ? tiro_sync_frame_arg_count(sync)
                    : async ? tiro_async_frame_arg_count(async) : tiro_resumable_frame_arg_count(res);
    }
    void arg(size_t i, tiro_handle_t out, tiro_error_t* err) const {
        if (sync) tiro_sync_frame_arg(sync, i, out, err);
        else if (async) tiro_async_frame_arg(async, i, out, err);
        else tiro_resumable_frame_arg(res, i, out, err);
    }
    void closure(tiro_handle_t out, tiro_error_t* err) const {
        if (sync) tiro_sync_frame_closure(sync, out, err);
        else if (async) tiro_async_frame_closure(async, out, err);
        else tiro_resumable_frame_closure(res, out, err);
    }
    void ret(tiro_handle_t v, tiro_error_t* err) const {
        if (sync) tiro_sync_frame_return_value(sync, v, err);
        else if (async) tiro_async_frame_return_value(async, v, err);
        else tiro_resumable_frame_return_value(res, v, err);
    }
    void panic(const std::string& m, tiro_error_t* err) const {
        if (sync) tiro_sync_frame_panic_msg(sync, str(m), err);
        else if (async) tiro_async_frame_panic_msg(async, str(m), err);
        else tiro_resumable_frame_panic_msg(res, str(m), err);
    }
};

// Builds the value described by `e` in `out`. Returns an error name or "OK".
std::string make(Session& S, Vm& v, const json& e, tiro_handle_t out, const FrameCtx* fr = nullptr) {
    tiro_vm_t vm = v.vm;
    Err err;
    const std::string k = e[0];
    if (k == "null") tiro_make_null(vm, out);
    else if (k == "b") tiro_make_boolean(vm, e[1].get<bool>(), out, err);
    else if (k == "i") {
        int64_t n = e[1].is_string() ? std::strtoll(e[1].get<std::string>().c_str(), nullptr, 10) : e[1].get<int64_t>();
        tiro_make_integer(vm, n, out, err);
    } else if (k == "f") tiro_make_float(vm, e[1].is_string() ? std::strtod(e[1].get<std::string>().c_str(), nullptr) : e[1].get<double>(), out, err);
    else if (k == "sb") { // a string from bytes
        std::string bytes;
        for (auto& b : e[1]) bytes.push_back(char(b.get<int>()));
        tiro_make_string(vm, str(bytes), out, err);
    }
    else if (k == "s") tiro_make_string(vm, str(e[1].get_ref<const std::string&>()), out, err);
    else if (k == "buf") tiro_make_buffer(vm, e[1].get<size_t>(), out, err);
    else if (k == "t") {
        Tmp t(vm), x(vm);
        tiro_make_tuple(vm, e[1].size(), t, err);
        for (size_t i = 0; i < e[1].size() && !err.e; ++i) {
            make(S, v, e[1][i], x, fr);
            tiro_tuple_set(vm, t, i, x, err);
        }
        tiro_value_copy(vm, t, out, err);
    } else if (k == "a") {
        Tmp t(vm), x(vm);
        tiro_make_array(vm, e.size() > 2 ? e[2].get<size_t>() : 0, t, err);
        for (size_t i = 0; i < e[1].size() && !err.e; ++i) {
            make(S, v, e[1][i], x, fr);
            tiro_array_push(vm, t, x, err);
        }
        tiro_value_copy(vm, t, out, err);
    } else if (k == "schema") {
        Tmp t(vm), x(vm);
        tiro_make_array(vm, 0, t, err);
        for (size_t i = 0; i < e[1].size() && !err.e; ++i) {
            make(S, v, e[1][i], x, fr);
            tiro_array_push(vm, t, x, err);
        }
        tiro_make_record_schema(vm, t, out, err);
    } else if (k == "r") {
        Tmp sch(vm), x(vm), key(vm), rec(vm);
        json names = json::array();
        for (auto& kv : e[1]) names.push_back({"s", kv[0]});
        make(S, v, json::array({"schema", names}), sch, fr);
        tiro_make_record(vm, sch, rec, err);
        for (auto& kv : e[1]) {
            if (err.e) break;
            make(S, v, kv[1], x, fr);
            tiro_make_string(vm, str(kv[0].get_ref<const std::string&>()), key, err);
            tiro_record_set(vm, rec, key, x, err);
        }
        tiro_value_copy(vm, rec, out, err);
    } else if (k == "ok" || k == "err") {
        Tmp x(vm);
        make(S, v, e[1], x, fr);
        if (k == "ok") tiro_make_success(vm, x, out, err);
        else tiro_make_error(vm, x, out, err);
    } else if (k == "n") {
        // ["n", tag, size, alignment, finalizer?]
        std::string tag = e[1];
        size_t size = e.size() > 2 ? e[2].get<size_t>() : tag.size() + 1;
        size_t align = e.size() > 3 ? e[3].get<size_t>() : 1;
        bool fin = e.size() > 4 ? e[4].get<bool>() : true;
        std::string tn = "T" + std::to_string(align) + (fin ? "f" : "");
        auto it = S.types.find(tn);
        if (it == S.types.end()) {
            it = S.types.emplace(tn, tiro_native_type_t{}).first;
            it->second.name = str(it->first);
            it->second.alignment = align;
            it->second.finalizer = fin ? native_finalizer : nullptr;
        }
        tiro_make_native(vm, &it->second, size, out, err);
        if (!err.e) {
            char* p = static_cast<char*>(tiro_native_data(vm, out));
            if (reinterpret_cast<uintptr_t>(p) % align != 0)
                emit({"misaligned", tag});
            if (size) {
                size_t n = std::min(size - 1, tag.size());
                memset(p, 0, size);
                memcpy(p, tag.data(), n);
                for (size_t i = n + 1; i < size; ++i)
                    p[i] = char(tag[0] + i % 17);
            }
        }
    } else if (k == "kind") {
        tiro_kind_type(vm, tiro_kind_t(e[1].get<int>()), out, err);
    } else if (k == "reg") tiro_value_copy(vm, S.reg(v, e[1]), out, err);
    else if (k == "arg" && fr) fr->arg(e[1].get<size_t>(), out, err);
    else if (k == "closure" && fr) {
        Tmp t(vm);
        fr->closure(t, err);
        tiro_tuple_get(vm, t, 1, out, err);
    } else if (k == "local" && fr && fr->res) tiro_resumable_frame_local(fr->res, e[1].get<size_t>(), out, err);
    else if (k == "inv" && fr && fr->res) tiro_resumable_frame_invoke_return(fr->res, out, err);
    else {
        emit({"hosterror", "make", e});
        _exit(4);
    }
    return err.take();
}

NativeDef* find_def(tiro_vm_t vm, const FrameCtx& fr) {
    Err err;
    Tmp c(vm), x(vm);
    fr.closure(c, err);
    tiro_tuple_get(vm, c, 0, x, err);
    int64_t idx = tiro_integer_value(vm, x);
    Session* s = static_cast<Session*>(tiro_vm_userdata(vm));
    if (err.e || idx < 0 || size_t(idx) >= s->natives.size()) {
        emit({"badclosure"});
        _exit(0);
    }
    return s->natives[size_t(idx)].get();
}

std::string arg_text(tiro_vm_t vm, const FrameCtx& fr, size_t i) {
    Err err;
    Tmp t(vm);
    fr.arg(i, t, err);
    json r = render(vm, t);
    return r.size() > 1 && r[1].is_string() ? r[1].get<std::string>() : r.dump();
}

// ["lit", text] or ["arg", i]
std::string op_text(tiro_vm_t vm, const FrameCtx& fr, const json& e) {
    return e[0] == "arg" ? arg_text(vm, fr, e[1].get<size_t>()) : e[1].get<std::string>();
}

void run_ops(NativeDef* d, const FrameCtx& fr, const json& ops) {
    Session& S = *d->session;
    Vm& v = S.vm(d->vm);
    tiro_vm_t vm = fr.vm;
    for (auto& op : ops) {
        const std::string k = op[0];
        Err err;
        if (k == "log") {
            json ev = {"n", d->name, op[1]};
            Tmp t(vm);
            for (size_t i = 2; i < op.size(); ++i) {
                std::string rc = make(S, v, op[i], t, &fr);
                ev.push_back(rc == "OK" ? render(vm, t) : json({"error", rc}));
            }
            emit(ev);
        } else if (k == "args") {
            json ev = {"n", d->name, "args"};
            json as = json::array();
            Tmp t(vm);
            for (size_t i = 0, n = fr.argc(); i < n; ++i) {
                fr.arg(i, t, err);
                as.push_back(render(vm, t));
            }
            ev.push_back(as);
            fr.arg(fr.argc(), t, err);
            ev.push_back(err.take());
            emit(ev);
        } else if (k == "ret") {
            Tmp t(vm);
            make(S, v, op[1], t, &fr);
            fr.ret(t, err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "ret", rc});
        } else if (k == "panic") {
            fr.panic(op_text(vm, fr, op[1]), err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "panic", rc});
        } else if (k == "tok") {
            // ["tok", name | ["arg", i]]
            std::string name = op_text(vm, fr, op[1]);
            tiro_async_token_t t = tiro_async_frame_token(fr.async, err);
            if (!t) emit({"n", d->name, "tok", err.take()});
            else {
                auto it = v.tokens.find(name);
                if (it != v.tokens.end()) { tiro_async_token_free(it->second); v.tokens.erase(it); }
                v.tokens[name] = t;
            }
        } else if (k == "yield") {
            tiro_async_frame_yield(fr.async, err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "yield", rc});
        } else if (k == "state") {
            tiro_resumable_frame_set_state(fr.res, op[1].get<int>(), err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "state", rc});
        } else if (k == "setlocal") {
            Tmp t(vm);
            make(S, v, op[2], t, &fr);
            tiro_resumable_frame_set_local(fr.res, op[1].get<size_t>(), t, err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "setlocal", rc});
        } else if (k == "invoke") {
            // ["invoke", next state, func, args | "NULL"]
            Tmp f(vm), a(vm);
            make(S, v, op[2], f, &fr);
            bool none = op[3].is_string() || op[3][0] == "NULL";
            if (!none) make(S, v, op[3], a, &fr);
            tiro_resumable_frame_invoke(fr.res, op[1].get<int>(), f, none ? nullptr : a.h, err);
            std::string rc = err.take();
            if (rc != "OK") emit({"n", d->name, "invoke", rc});
        } else if (k == "cmd") {
            S.command(op[1]);
        } else {
            emit({"hosterror", "op", op});
            _exit(4);
        }
    }
}

// The machine a native function is called for has to be the one it was defined for.
void entered(tiro_vm_t vm, NativeDef* d) {
    auto it = d->session->vms.find(d->vm);
    if (it == d->session->vms.end() || it->second.vm != vm || d->session->machine != t_machine)
        emit({"hosterror", "machine"});
    interleave();
}

void generic_sync(tiro_vm_t vm, tiro_sync_frame_t frame) {
    FrameCtx fr{vm};
    fr.sync = frame;
    NativeDef* d = find_def(vm, fr);
    entered(vm, d);
    if (d->flavour == "trace") {
        // t(args...): log all arguments, return the last one
        Err err;
        Tmp t(vm);
        json ev = {"t"};
        for (size_t i = 0, n = fr.argc(); i < n; ++i) {
            fr.arg(i, t, err);
            ev.push_back(render(vm, t));
        }
        emit(ev);
        fr.ret(t, err);
        return;
    }
    if (d->flavour == "native") {
        // nat(tag): new native object
        Err err;
        Tmp t(vm);
        std::string tag = arg_text(vm, fr, 0);
        make(*d->session, d->session->vm(d->vm), json::array({"n", tag}), t);
        fr.ret(t, err);
        return;
    }
    run_ops(d, fr, d->program);
}

void generic_async(tiro_vm_t vm, tiro_async_frame_t frame) {
    FrameCtx fr{vm};
    fr.async = frame;
    NativeDef* d = find_def(vm, fr);
    entered(vm, d);
    run_ops(d, fr, d->program);
}

void generic_resumable(tiro_vm_t vm, tiro_resumable_frame_t frame) {
    FrameCtx fr{vm};
    fr.res = frame;
    NativeDef* d = find_def(vm, fr);
    entered(vm, d);
    int state = tiro_resumable_frame_state(frame);
    json ev = {"rs", d->name, std::to_string(state)};
    {
        Err err;
        Tmp t(vm);
        json as = json::array(), ls = json::array();
        for (size_t i = 0, n = fr.argc(); i < n; ++i) {
            fr.arg(i, t, err);
            as.push_back(render(vm, t));
        }
        for (size_t i = 0, n = tiro_resumable_frame_local_count(frame); i < n; ++i) {
            tiro_resumable_frame_local(frame, i, t, err);
            ls.push_back(render(vm, t));
        }
        ev.push_back(as);
        ev.push_back(ls);
    }
    emit(ev);
    auto it = d->program.find(std::to_string(state));
    if (it != d->program.end())
        run_ops(d, fr, *it);
}

Callback* callback_of(void* userdata) {
    return userdata ? static_cast<Callback*>(userdata) : null_callback;
}

void completion(tiro_vm_t vm, tiro_handle_t coro, void* userdata) {
    Callback* cb = callback_of(userdata);
    Err err;
    Tmp r(vm);
    tiro_coroutine_result(vm, coro, r, err);
    std::string rc = err.take();
    emit({"cb", cb->tag, tiro_coroutine_completed(vm, coro), rc, render(vm, r)});
    interleave();
    for (auto& c : cb->actions)
        cb->session->command(c);
}

void cleanup(void* userdata) {
    Callback* cb = callback_of(userdata);
    emit({"cleanup", cb->tag});
}

struct Diag {
    int warnings = 0, errors = 0;
    std::string first;
};
bool on_message(const tiro_compiler_message_t* m, void* ud) {
    Diag* d = static_cast<Diag*>(ud);
    if (m->severity == TIRO_SEVERITY_ERROR) {
        d->errors++;
        if (d->first.empty())
            d->first = std::string(m->text.data, m->text.length);
    } else
        d->warnings++;
    return true;
}

// Compiles {"file": "source"} or a plain source text.
tiro_module_t compile(const std::string& name, const json& files, Diag& d, std::string& rc, std::string* bytecode = nullptr) {
    Err err;
    tiro_module_t m = nullptr;
    tiro_compiler_t c = tiro_compiler_new(str(name), err);
    if (!c) { rc = err.take(); return nullptr; }
    tiro_compiler_set_message_callback(c, on_message, &d, err);
    if (files.is_string()) {
        std::string fn = "main";
        tiro_compiler_add_file(c, str(fn), str(files.get_ref<const std::string&>()), err);
    } else
        for (auto& [fn, src] : files.items())
            tiro_compiler_add_file(c, str(fn), str(src.get_ref<const std::string&>()), err);
    if (bytecode) tiro_compiler_request_attachment(c, TIRO_ATTACHMENT_BYTECODE, err);
    tiro_compiler_run(c, err);
    if (err.e && tiro_error_errc(err.e) == TIRO_ERROR_INTERNAL && tiro_error_details(err.e))
        d.first = tiro_error_details(err.e);
    rc = err.take();
    bool has = tiro_compiler_has_module(c);
    if (has) tiro_compiler_take_module(c, &m, err);
    if (bytecode) {
        char* s = nullptr;
        tiro_compiler_get_attachment(c, TIRO_ATTACHMENT_BYTECODE, &s, err);
        if (s) { *bytecode = s; free(s); }
    }
    tiro_compiler_free(c);
    return m;
}

struct Places {
    json all = json::array();
    int errors = 0;
};
bool on_place(const tiro_compiler_message_t* m, void* ud) {
    Places* p = static_cast<Places*>(ud);
    if (m->severity == TIRO_SEVERITY_ERROR) p->errors++;
    else if (m->line == 0 && m->column == 0) return true; // a warning may be without a place
    p->all.push_back(std::to_string(m->line) + ":" + std::to_string(m->column));
    return true;
}

json syntax(const json& text, bool all) {
    std::string source;
    if (text.is_array())
        for (auto& b : text) source.push_back(char(b.get<int>()));
    else
        source = text.get<std::string>();
    Err err;
    std::string name = "m", file = "main";
    Places p;
    tiro_compiler_t c = tiro_compiler_new(str(name), err);
    if (!c) return {"syntax", err.take()};
    tiro_compiler_set_message_callback(c, on_place, &p, err);
    tiro_compiler_add_file(c, str(file), str(source), err);
    std::vector<tiro_attachment> kinds{TIRO_ATTACHMENT_CST};
    if (all) kinds.insert(kinds.end(), {TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE});
    for (auto k : kinds)
        tiro_compiler_request_attachment(c, k, err);
    tiro_compiler_run(c, err);
    std::string rc = err.take(), cst;
    int got = 0;
    for (auto k : kinds) {
        char* s = nullptr;
        tiro_compiler_get_attachment(c, k, &s, err);
        std::string r = err.take();
        if (s) {
            if (k == TIRO_ATTACHMENT_CST) cst = s;
            ++got;
            free(s);
        } else if (r != "BAD_STATE" || rc == "OK" || k == TIRO_ATTACHMENT_CST)
            rc += " " + r;
    }
    tiro_compiler_free(c);
    return {"syntax", rc, cst, p.all, p.errors, got};
}

std::string g_print;
void print_stdout(tiro_string_t message, void* userdata) {
    interleave();
    if (static_cast<Session*>(userdata)->machine != t_machine) emit({"hosterror", "print"});
    emit({"print", std::string(message.data, message.length)});
}

#include "api_ops.hpp"

std::pair<char*, size_t> storage(tiro_vm_t vm, tiro_handle_t h) {
    if (tiro_value_kind(vm, h) == TIRO_KIND_NATIVE)
        return {static_cast<char*>(tiro_native_data(vm, h)), tiro_native_size(vm, h)};
    return {reinterpret_cast<char*>(tiro_buffer_data(vm, h)), tiro_buffer_size(vm, h)};
}

char pattern(const std::string& name, size_t k) {
    unsigned x = 7;
    for (char c : name) x = x * 31 + unsigned(c);
    return char((x + k * 13 + (k >> 8)) % 255 + 1);
}

json Session::exec(const json& c) {
    const std::string cmd = c[0];
    Err err;
    if (cmd == "vm") {
        tiro_vm_settings_t s;
        tiro_vm_settings_init(&s);
        if (c.size() > 2) {
            s.page_size = c[2].value("page", size_t(0));
            s.max_heap_size = c[2].value("max", size_t(0));
            s.enable_panic_stack_trace = c[2].value("trace", false);
        }
        s.print_stdout = print_stdout;
        s.userdata = this;
        Vm v;
        v.vm = tiro_vm_new(&s, err);
        std::string rc = err.take();
        if (v.vm)
            vms[c[1]] = v;
        return rc == "OK" && v.vm ? json() : json({"vm", rc, v.vm != nullptr});
    }
    if (cmd == "gcperiod") {
        tiro_verif_set_gc_period(c[1].get<unsigned long>());
        return {};
    }
    if (cmd == "mark") return c;
    if (cmd == "quiet") { g_quiet = c[1].get<bool>(); return {}; }
    if (cmd == "mem") {
        // bytes currently allocated by the process, minus a remembered base
        static long base = 0;
        struct mallinfo2 mi = mallinfo2();
        long now = long(mi.uordblks + mi.hblkhd);
        if (c[1] == "base") { base = now; return {}; }
        return {"mem", now - base};
    }
    if (cmd == "fault") {
        // ["fault", n, command]: the n-th allocation during the command fails
        tiro_verif_fail_after(c[1].get<unsigned long>());
        fault_armed = true;
        fault_run = c[2][0] == "run"; // observations inside a run do not end it
        json r = exec(c[2]);
        fault_run = false;
        disarm();
        if (!r.is_null()) emit(r);
        return {"fault", fault_fired};
    }
    if (cmd == "compile") {
        // ["compile", module, files]
        Diag d;
        std::string rc;
        tiro_module_t m = compile(c[1], c[2], d, rc);
        bool has = m != nullptr;
        if (m) tiro_module_free(m);
        return {"compile", rc, has, d.errors > 0, d.first};
    }
    if (cmd == "syntax") {
        // ["syntax", source or bytes, all attachments?] -> rc, the syntax tree, places of the messages
        return syntax(c[1], c.size() > 2 && c[2].get<bool>());
    }
    if (cmd == "repeat") {
        for (int i = 0, n = c[1].get<int>(); i < n; ++i)
            for (size_t j = 2; j < c.size(); ++j)
                command(c[j]);
        return {};
    }
    // all remaining commands start with a vm name
    Vm& v = vm(c[1]);
    tiro_vm_t vm = v.vm;
    if (cmd == "std") {
        tiro_vm_load_std(vm, err);
        std::string rc = err.take();
        return rc == "OK" ? json() : json({"std", rc});
    }
    if (cmd == "load") {
        // ["load", vm, module, files]
        Diag d;
        std::string rc;
        tiro_module_t m = compile(c[2], c[3], d, rc);
        if (!m) return {"load", c[2], "COMPILE", rc, d.first};
        if (d.errors) emit({"load", c[2], "ERRORS", rc, d.first});
        tiro_vm_load_bytecode(vm, m, err);
        tiro_module_free(m);
        return {"load", c[2], err.take()};
    }
    if (cmd == "native") {
        // ["native", vm, reg, {name, flavour, argc, locals, closure, program}]
        auto d = std::make_unique<NativeDef>();
        const json& o = c[3];
        d->session = this;
        d->vm = c[1];
        d->name = o.value("name", std::string(c[2]));
        d->flavour = o["flavour"];
        d->program = o.value("program", json::array());
        size_t argc = o.value("argc", size_t(0)), locals = o.value("locals", size_t(0));
        Tmp clo(vm), x(vm), name(vm), fn(vm);
        tiro_make_tuple(vm, 2, clo, err);
        tiro_make_integer(vm, int64_t(natives.size()), x, err);
        tiro_tuple_set(vm, clo, 0, x, err);
        if (o.contains("closure")) {
            make(*this, v, o["closure"], x);
            tiro_tuple_set(vm, clo, 1, x, err);
        }
        tiro_make_string(vm, str(d->name), name, err);
        if (d->flavour == "async") tiro_make_async_function(vm, name, generic_async, argc, clo, fn, err);
        else if (d->flavour == "resumable") {
            tiro_resumable_frame_desc_t desc{};
            desc.name = name;
            desc.arg_count = argc;
            desc.local_count = locals;
            desc.closure = clo;
            desc.func = generic_resumable;
            tiro_make_resumable_function(vm, &desc, fn, err);
        } else tiro_make_sync_function(vm, name, generic_sync, argc, clo, fn, err);
        natives.push_back(std::move(d));
        tiro_value_copy(vm, fn, reg(v, c[2]), err);
        std::string rc = err.take();
        return rc == "OK" ? json() : json({"native", c[2], rc});
    }
    if (cmd == "module") {
        // ["module", vm, name, [[member, reg], ...]]: create and load a native module
        std::vector<tiro_module_member_t> ms;
        std::vector<std::string> names;
        for (auto& m : c[3]) names.push_back(m[0]);
        size_t i = 0;
        for (auto& m : c[3]) ms.push_back({str(names[i++]), reg(v, m[1])});
        Tmp mod(vm);
        tiro_make_module(vm, str(c[2].get_ref<const std::string&>()), ms.data(), ms.size(), mod, err);
        std::string rc = err.take();
        if (rc != "OK") return {"module", c[2], rc};
        tiro_vm_load_module(vm, mod, err);
        rc = err.take();
        return rc == "OK" ? json() : json({"module", c[2], rc});
    }
    if (cmd == "export") {
        // ["export", vm, module, name, reg]
        tiro_vm_get_export(vm, str(c[2].get_ref<const std::string&>()), str(c[3].get_ref<const std::string&>()), reg(v, c[4]), err);
        return {"export", c[2], c[3], err.take()};
    }
    if (cmd == "set") {
        // ["set", vm, reg, expr]
        std::string rc = make(*this, v, c[3], reg(v, c[2]));
        return rc == "OK" ? json() : json({"set", c[2], rc});
    }
    if (cmd == "bytes") { // like show, strings are lists of bytes
        strings_as_bytes = true;
        json x = render(vm, reg(v, c[2]));
        strings_as_bytes = false;
        return {"bytes", c[2], x};
    }
    if (cmd == "show") return {"show", c[2], render(vm, reg(v, c[2]))};
    if (cmd == "same") return {"same", tiro_value_same(vm, reg(v, c[2]), reg(v, c[3]))};
    if (cmd == "coro") {
        // ["coro", vm, reg, func reg, args expr | "NULL"]
        Tmp a(vm);
        bool none = c[4].is_string() || c[4][0] == "NULL";
        if (!none) make(*this, v, c[4], a);
        tiro_make_coroutine(vm, reg(v, c[3]), none ? nullptr : a.h, reg(v, c[2]), err);
        std::string rc = err.take();
        return {"coro", c[2], rc};
    }
    if (cmd == "start") {
        tiro_coroutine_start(vm, reg(v, c[2]), err);
        return {"start", c[2], err.take()};
    }
    if (cmd == "run") {
        tiro_vm_run_ready(vm, err);
        return {"run", err.take()};
    }
    if (cmd == "ready") return {"ready", tiro_vm_has_ready(vm)};
    if (cmd == "status") {
        // ["status", vm, reg]: started, completed, result
        tiro_handle_t h = reg(v, c[2]);
        Tmp r(vm);
        tiro_coroutine_result(vm, h, r, err);
        std::string rc = err.take();
        return {"status", c[2], tiro_coroutine_started(vm, h), tiro_coroutine_completed(vm, h), rc, render(vm, r)};
    }
    if (cmd == "callback") {
        // ["callback", vm, reg, tag, cleanup?, callback?, actions]
        auto cb = std::make_unique<Callback>();
        cb->session = this;
        cb->vm = c[1];
        cb->tag = c[3];
        if (c.size() > 6) cb->actions = c[6];
        Callback* p = cb.get();
        callbacks.push_back(std::move(cb));
        bool with_cleanup = c.size() > 4 ? c[4].get<bool>() : true;
        bool with_cb = c.size() > 5 ? c[5].get<bool>() : true;
        void* userdata = p;
        if (p->tag[0] == 'n' && !null_callback) { // at most one of them per thread can be told apart
            null_callback = p;
            userdata = nullptr;
        }
        tiro_coroutine_set_callback(vm, c[2].is_null() ? nullptr : reg(v, c[2]), with_cb ? completion : nullptr,
            with_cleanup ? cleanup : nullptr, userdata, err);
        return {"callback", c[3], err.take()};
    }
    if (cmd == "tokret" || cmd == "tokpanic" || cmd == "tokfree") {
        auto it = v.tokens.find(c[2]);
        if (it == v.tokens.end()) return {cmd, c[2], "NOTOKEN"};
        if (cmd == "tokret") {
            Tmp t(vm);
            make(*this, v, c[3], t);
            tiro_async_token_return_value(it->second, t, err);
        } else if (cmd == "tokpanic") {
            tiro_async_token_panic_msg(it->second, str(c[3].get_ref<const std::string&>()), err);
        } else {
            tiro_async_token_free(it->second);
            v.tokens.erase(it);
        }
        return {cmd, c[2], err.take()};
    }
    if (cmd == "call") {
        // ["call", vm, func reg, args expr | "NULL", result reg?]: run a function to completion on a new coroutine
        Tmp a(vm), co(vm), r(vm);
        bool none = c[3].is_string() || c[3][0] == "NULL";
        if (!none) make(*this, v, c[3], a);
        tiro_make_coroutine(vm, reg(v, c[2]), none ? nullptr : a.h, co, err);
        if (!err.e) tiro_coroutine_start(vm, co, err);
        if (!err.e) tiro_vm_run_ready(vm, err);
        std::string rc = err.take();
        if (!tiro_coroutine_completed(vm, co)) return {"call", c[2], rc, json({"pending"})};
        tiro_coroutine_result(vm, co, r, err);
        if (c.size() > 4) tiro_result_value(vm, r, reg(v, c[4]), err);
        return {"call", c[2], rc, render(vm, r)};
    }
    if (cmd == "block") {
        // ["block", vm, reg, "n"|"buf", size, align, upto?]: create storage, or many (reg0, reg1, ...) until this fails
        int upto = c.size() > 6 ? c[6].get<int>() : 0;
        for (int i = 0; i < std::max(upto, 1); ++i) {
            const std::string r = c[2].get<std::string>() + (upto ? std::to_string(i) : "");
            size_t size = c[4].get<size_t>(), align = c[5].get<size_t>();
            tiro_handle_t h = reg(v, r);
            if (c[3] == "n") {
                std::string tn = "B" + std::to_string(align);
                auto it = types.find(tn);
                if (it == types.end()) {
                    it = types.emplace(tn, tiro_native_type_t{}).first;
                    it->second.name = str(it->first);
                    it->second.alignment = align;
                }
                tiro_make_native(vm, &it->second, size, h, err);
            } else
                tiro_make_buffer(vm, size, h, err);
            std::string rc = err.take();
            if (rc != "OK") {
                emit({"block", r, rc, 0, 0, 0, true, tiro_verif_heap_total(vm)});
                break;
            }
            auto [p, n] = storage(vm, h);
            bool zero = true;
            for (size_t k = 0; k < n; ++k) zero &= p[k] == 0;
            for (size_t k = 0; k < n; ++k) p[k] = pattern(r, k);
            auto a = reinterpret_cast<uintptr_t>(p);
            emit({"block", r, rc, a >> 20, a & 0xfffff, n, zero, tiro_verif_heap_total(vm)});
        }
        return {};
    }
    if (cmd == "intact") {
        // ["intact", vm, reg, first reg]: address, size and contents; the pattern belongs to the register it was created in
        auto [p, n] = storage(vm, reg(v, c[2]));
        bool ok = true;
        for (size_t k = 0; k < n; ++k) ok &= p[k] == pattern(c[3], k);
        auto a = reinterpret_cast<uintptr_t>(p);
        return {"intact", c[2], a >> 20, a & 0xfffff, n, ok};
    }
    if (cmd == "gc") {
        tiro_verif_collect(vm);
        return {};
    }
    if (cmd == "drop") {
        auto it = v.regs.find(c[2]);
        if (it != v.regs.end()) {
            tiro_global_free(it->second);
            v.regs.erase(it);
        }
        return {};
    }
    if (cmd == "total") return {"total", std::to_string(tiro_verif_heap_total(vm))};
    if (cmd == "free") {
        for (auto& [n, h] : v.regs) tiro_global_free(h);
        v.regs.clear();
        if (c.size() > 2) // also free the tokens explicitly
            for (auto& [n, t] : v.tokens) tiro_async_token_free(t);
        v.tokens.clear();
        tiro_vm_free(v.vm);
        vms.erase(c[1]);
        return {"freed"};
    }
    json r = api_op(*this, v, c);
    if (!r.is_null())
        return r;
    emit({"hosterror", "cmd", c});
    _exit(4);
}

void close_session(Session& S) {
    for (auto& [n, v] : S.vms) {
        for (auto& [rn, h] : v.regs) tiro_global_free(h);
        tiro_vm_free(v.vm);
    }
}

// Several sessions at once: {"machines": [[cmd...]...], "schedule": [machine...], "nest": {"k": [machine, n]}}; at the k-th entry of a
// native function or callback, n commands of a machine that is not working itself are performed. {"threads": true}: one thread per machine.
struct Multi {
    std::vector<std::unique_ptr<Session>> sessions;
    std::vector<json> cmds;
    std::vector<size_t> pos;
    std::vector<bool> working;
    std::map<size_t, std::pair<size_t, size_t>> nest;
    size_t entries = 0;
    void step(size_t j) {
        if (working[j] || pos[j] >= cmds[j].size()) return;
        int machine = std::exchange(t_machine, int(j));
        bool quiet = std::exchange(g_quiet, false);
        working[j] = true;
        sessions[j]->command(cmds[j][pos[j]++]);
        working[j] = false;
        t_machine = machine;
        g_quiet = quiet;
    }
};
Multi* g_multi = nullptr;

void interleave() {
    if (!g_multi) return;
    auto it = g_multi->nest.find(g_multi->entries++);
    if (it == g_multi->nest.end()) return;
    for (size_t k = 0; k < it->second.second; ++k) g_multi->step(it->second.first);
}

void run_multi(const json& s) {
    Multi M;
    for (auto& c : s["machines"]) {
        M.sessions.push_back(std::make_unique<Session>());
        M.sessions.back()->machine = int(M.cmds.size());
        M.cmds.push_back(c);
    }
    const size_t n = M.cmds.size();
    M.pos.resize(n);
    M.working.resize(n);
    auto finish = [&](size_t j) {
        t_machine = int(j);
        close_session(*M.sessions[j]);
        emit({"end"});
        t_machine = -1;
    };
    if (s.value("threads", false)) {
        std::vector<std::thread> threads;
        for (size_t j = 0; j < n; ++j)
            threads.emplace_back([&, j] {
                t_machine = int(j);
                for (auto& c : M.cmds[j]) M.sessions[j]->command(c);
                finish(j);
            });
        for (auto& t : threads) t.join();
        return;
    }
    for (auto& [k, v] : s["nest"].items()) M.nest[std::stoul(k)] = {v[0], v[1]};
    g_multi = &M;
    for (auto& j : s["schedule"]) M.step(j);
    for (size_t j = 0; j < n; ++j)
        while (M.pos[j] < M.cmds[j].size()) M.step(j);
    g_multi = nullptr;
    for (size_t j = 0; j < n; ++j) finish(j);
}

void run_session(const json& s) {
    if (s.contains("machines")) return run_multi(s);
    Session S;
    for (auto& c : s["cmds"])
        S.command(c);
    close_session(S);
}

} // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        fprintf(stderr, "usage: host IN OUT [jobs]\n");
        return 2;
    }
    std::ifstream in(argv[1]);
    std::vector<std::string> lines;
    for (std::string l; std::getline(in, l);)
        if (!l.empty()) lines.push_back(l);
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    FILE* out = fopen(argv[2], "w");
    if (!out) return 2;
    struct Job {
        pid_t pid = -1;
        int fd = -1;
        size_t index = 0;
        time_t start = 0;
        std::string data;
    };
    int slow = 0; // failed sessions that took long: with several of them, the others do not get as much time
    std::vector<Job> running;
    std::vector<std::string> results(lines.size());
    size_t next = 0;
    signal(SIGPIPE, SIG_IGN);
    while (next < lines.size() || !running.empty()) {
        while (next < lines.size() && int(running.size()) < jobs) {
            int p[2];
            if (pipe(p)) return 2;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) return 2;
            if (pid == 0) {
                close(p[0]);
                g_out = p[1];
                int null = open("/dev/null", O_WRONLY);
                dup2(null, 1);
                dup2(null, 2);
                struct rlimit rl{0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = rlim_t(3) << 30;
                setrlimit(RLIMIT_AS, &rl);
                json s = json::parse(lines[next]);
                alarm(slow < 8 ? s.value("timeout", 20) : 5);
                run_session(s);
                emit({"end"});
                _exit(0);
            }
            close(p[1]);
            Job j;
            j.pid = pid;
            j.fd = p[0];
            j.index = next++;
            j.start = time(nullptr);
            running.push_back(j);
        }
        std::vector<pollfd> fds;
        for (auto& j : running) fds.push_back({j.fd, POLLIN, 0});
        poll(fds.data(), fds.size(), 1000);
        for (size_t i = 0; i < fds.size(); ++i) {
            if (!fds[i].revents) continue;
            Job& j = running[i];
            char buf[65536];
            ssize_t n = read(j.fd, buf, sizeof buf);
            if (n > 0) {
                j.data.append(buf, size_t(n));
                continue;
            }
            close(j.fd);
            j.fd = -1;
            int status = 0;
            waitpid(j.pid, &status, 0);
            if ((WIFSIGNALED(status) || WEXITSTATUS(status) != 0) && time(nullptr) - j.start >= 5) ++slow;
            json s = json::parse(lines[j.index]);
            std::string o = "{\"id\":" + s["id"].dump() + ",\"ev\":[";
            // an incomplete last line cannot happen for complete writes; be safe
            size_t last = j.data.rfind('\n');
            std::string body = last == std::string::npos ? "" : j.data.substr(0, last + 1);
            bool first = true;
            size_t pos = 0;
            while (pos < body.size()) {
                size_t e = body.find('\n', pos);
                if (!first) o += ',';
                first = false;
                o.append(body, pos, e - pos);
                pos = e + 1;
            }
            if (WIFSIGNALED(status)) {
                if (!first) o += ',';
                o += WTERMSIG(status) == SIGALRM ? "[\"timeout\"]" : "[\"crash\",\"" + std::to_string(WTERMSIG(status)) + "\"]";
            } else if (WEXITSTATUS(status) != 0) {
                if (!first) o += ',';
                o += "[\"exit\",\"" + std::to_string(WEXITSTATUS(status)) + "\"]";
            }
            o += "]}\n";
            results[j.index] = std::move(o);
        }
        std::vector<Job> still;
        for (auto& j : running)
            if (j.fd >= 0) still.push_back(std::move(j));
        running.swap(still);
    }
    for (auto& r : results) fwrite(r.data(), 1, r.size(), out);
    fclose(out);
    return 0;
}
