// Bytecode tool (C19): compiles sources and shows the modules, builds modules from such descriptions and loads them.
//
//   bytecode IN.ndjson OUT.ndjson
//
// IN:  {"id", "src"}                          -> {"id", "m": module} or {"id", "error"}
//      {"id", "src", "mutants": [module...]}  -> {"id", "r": [[code, afterwards]...]}: the code of loading the mutant; afterwards: the code of loading
//                                                the unchanged module under the same name (refused mutant) or of loading the mutant again
// Every mutant runs in a child process; a crash is reported as ["crash", signal].
#include "api/internal.hpp"
#include "bytecode/module.hpp"

#include <nlohmann/json.hpp>
#include <tiro/api.h>

#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>

using json = nlohmann::ordered_json;
using namespace tiro;

namespace {

constexpr const char* module_name = "m";

tiro_string_t str(const std::string& s) {
    return {s.data(), s.size()};
}

struct Err {
    tiro_error_t e = nullptr;
    operator tiro_error_t*() { return &e; }
    std::string take() {
        std::string r = e ? std::string(tiro_error_name(e)) : "OK";
        if (r.rfind("ERROR_", 0) == 0) r = r.substr(6);
        const std::string details = e ? tiro_error_details(e) : "";
        if (details.find("Assertion `") != std::string::npos || details.find("Unreachable code") != std::string::npos) r = "ASSERT";
        tiro_error_free(e);
        e = nullptr;
        return r;
    }
};

tiro_module_t compile(const std::string& src) {
    Err err;
    tiro_module_t m = nullptr;
    tiro_compiler_t c = tiro_compiler_new(str(module_name), err);
    tiro_compiler_set_message_callback(c, [](auto...) { return true; }, nullptr, err);
    std::string fn = "main";
    tiro_compiler_add_file(c, str(fn), str(src), err);
    tiro_compiler_run(c, err);
    if (tiro_compiler_has_module(c)) tiro_compiler_take_module(c, &m, err);
    tiro_compiler_free(c);
    err.take();
    return m;
}

template<typename Id>
json id(Id i) {
    return i ? json(i.value()) : json(-1);
}

template<typename Id>
Id id(const json& j) {
    int64_t n = j.get<int64_t>();
    return n < 0 ? Id() : Id(static_cast<u32>(n));
}

json text(const StringTable& t, InternedString s) {
    return s ? json(std::string(t.value(s))) : json(nullptr);
}

InternedString text(StringTable& t, const json& j) {
    return j.is_null() ? InternedString() : t.insert(j.get<std::string>());
}

json show(const BytecodeModule& m) {
    json members = json::array(), functions = json::array(), schemas = json::array(), exports = json::array();
    for (auto& x : m.members()) {
        std::string type(to_string(x.type()));
        switch (x.type()) {
        case BytecodeMemberType::Integer: members.push_back({type, std::to_string(x.as_integer().value)}); break;
        case BytecodeMemberType::Float: members.push_back({type, std::to_string(x.as_float().value)}); break;
        case BytecodeMemberType::String: members.push_back({type, text(m.strings(), x.as_string().value)}); break;
        case BytecodeMemberType::Symbol: members.push_back({type, id(x.as_symbol().name)}); break;
        case BytecodeMemberType::Import: members.push_back({type, id(x.as_import().module_name)}); break;
        case BytecodeMemberType::Variable: members.push_back({type, id(x.as_variable().name), id(x.as_variable().initial_value)}); break;
        case BytecodeMemberType::Function: members.push_back({type, id(x.as_function().id)}); break;
        case BytecodeMemberType::RecordSchema: members.push_back({type, id(x.as_record_schema().id)}); break;
        }
    }
    for (auto& f : m.functions()) {
        json code = json::array(), handlers = json::array();
        for (auto b : f.code()) code.push_back(int(b));
        for (auto& h : f.handlers()) handlers.push_back({id(h.from), id(h.to), id(h.target)});
        functions.push_back({{"name", id(f.name())}, {"closure", f.type() == BytecodeFunctionType::Closure}, {"params", f.params()}, {"locals", f.locals()}, {"code", code}, {"handlers", handlers}});
    }
    for (auto& r : m.records()) {
        json keys = json::array();
        for (auto k : r.keys()) keys.push_back(id(k));
        schemas.push_back(keys);
    }
    for (auto [symbol, value] : m.exports()) exports.push_back({id(symbol), id(value)});
    return {{"name", text(m.strings(), m.name())}, {"init", id(m.init())}, {"exports", exports}, {"members", members}, {"functions", functions}, {"schemas", schemas}};
}

std::unique_ptr<BytecodeModule> construct(const json& j) {
    auto m = std::make_unique<BytecodeModule>();
    m->name(text(m->strings(), j["name"]));
    m->init(id<BytecodeMemberId>(j["init"]));
    for (auto& x : j["members"]) {
        const std::string type = x[0];
        if (type == "Integer") m->members().push_back(BytecodeMember::make_integer(std::strtoll(x[1].get<std::string>().c_str(), nullptr, 10)));
        else if (type == "Float") m->members().push_back(BytecodeMember::make_float(std::strtod(x[1].get<std::string>().c_str(), nullptr)));
        else if (type == "String") m->members().push_back(BytecodeMember::make_string(text(m->strings(), x[1])));
        else if (type == "Symbol") m->members().push_back(BytecodeMember::make_symbol(id<BytecodeMemberId>(x[1])));
        else if (type == "Import") m->members().push_back(BytecodeMember::make_import(id<BytecodeMemberId>(x[1])));
        else if (type == "Variable") m->members().push_back(BytecodeMember::make_variable(id<BytecodeMemberId>(x[1]), id<BytecodeMemberId>(x[2])));
        else if (type == "Function") m->members().push_back(BytecodeMember::make_function(id<BytecodeFunctionId>(x[1])));
        else m->members().push_back(BytecodeMember::make_record_schema(id<BytecodeRecordSchemaId>(x[1])));
    }
    for (auto& x : j["functions"]) {
        BytecodeFunction f;
        f.name(id<BytecodeMemberId>(x["name"]));
        f.type(x["closure"].get<bool>() ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
        f.params(x["params"].get<u32>());
        f.locals(x["locals"].get<u32>());
        for (auto& b : x["code"]) f.code().push_back(byte(b.get<int>()));
        for (auto& h : x["handlers"]) f.handlers().push_back({id<BytecodeOffset>(h[0]), id<BytecodeOffset>(h[1]), id<BytecodeOffset>(h[2])});
        m->functions().push_back(std::move(f));
    }
    for (auto& x : j["schemas"]) {
        BytecodeRecordSchema s;
        for (auto& k : x) s.keys().push_back(id<BytecodeMemberId>(k));
        m->records().push_back(std::move(s));
    }
    for (auto& x : j["exports"]) m->add_export(id<BytecodeMemberId>(x[0]), id<BytecodeMemberId>(x[1]));
    return m;
}

std::string load(tiro_vm_t vm, const json& m) {
    Err err;
    tiro_module mod(construct(m));
    tiro_vm_load_bytecode(vm, &mod, err);
    return err.take();
}

json attempt(const json& original, const json& mutant) {
    int p[2];
    if (pipe(p)) return {"crash", -1};
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        alarm(20);
        tiro_vm_settings_t settings;
        tiro_vm_settings_init(&settings);
        Err err;
        tiro_vm_t vm = tiro_vm_new(&settings, err);
        std::string rc = load(vm, mutant);
        std::string after = load(vm, rc == "OK" ? mutant : original);
        tiro_vm_free(vm);
        std::string out = json({rc, after}).dump();
        if (write(p[1], out.data(), out.size()) < 0) _exit(1);
        _exit(0);
    }
    close(p[1]);
    std::string out;
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, size_t(n));
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) return {"crash", std::to_string(WTERMSIG(status))};
    if (out.empty()) return {"crash", "exit"};
    return json::parse(out);
}

} // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        json j = json::parse(line);
        json r = {{"id", j["id"]}};
        tiro_module_t m = compile(j["src"]);
        if (!m) r["error"] = true;
        else {
            json original = show(*m->mod);
            tiro_module_free(m);
            if (!j.contains("mutants")) r["m"] = original;
            else {
                r["r"] = json::array();
                for (auto& x : j["mutants"]) r["r"].push_back(attempt(original, x));
            }
        }
        out << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n";
    }
    return 0;
}
