// Direct calls of host interface functions (containers, error contract). Included by host.cpp.
//
//   ["api", vm, function, [operands], mode]
//
// operands: ["h", reg] handle, ["N"] missing handle, ["z", size], ["i", text], ["f", text], ["b", x], ["s", text], ["S0"] invalid string,
//           ["k", kind name], ["p", x] pointer present or not.   mode: "" | "noerr" (no error argument) | "kept" (an error is already present) | "novm"
// event: ["api", function, code, value]; the value is what the function returned, or the content of the result handle after the call.

void api_sync(tiro_vm_t, tiro_sync_frame_t) {}
void api_async(tiro_vm_t, tiro_async_frame_t) {}
void api_resumable(tiro_vm_t, tiro_resumable_frame_t) {}

const std::pair<const char*, tiro_kind_t> api_kinds[] = {
    {"NULL", TIRO_KIND_NULL}, {"BOOLEAN", TIRO_KIND_BOOLEAN}, {"INTEGER", TIRO_KIND_INTEGER}, {"FLOAT", TIRO_KIND_FLOAT}, {"STRING", TIRO_KIND_STRING},
    {"FUNCTION", TIRO_KIND_FUNCTION}, {"TUPLE", TIRO_KIND_TUPLE}, {"RECORD", TIRO_KIND_RECORD}, {"RECORD_SCHEMA", TIRO_KIND_RECORD_SCHEMA},
    {"ARRAY", TIRO_KIND_ARRAY}, {"BUFFER", TIRO_KIND_BUFFER}, {"RESULT", TIRO_KIND_RESULT}, {"EXCEPTION", TIRO_KIND_EXCEPTION},
    {"COROUTINE", TIRO_KIND_COROUTINE}, {"MODULE", TIRO_KIND_MODULE}, {"TYPE", TIRO_KIND_TYPE}, {"NATIVE", TIRO_KIND_NATIVE},
    {"INTERNAL", TIRO_KIND_INTERNAL}, {"INVALID", TIRO_KIND_INVALID}};

struct ApiCall {
    Session& S;
    Vm& v;
    const json& args;
    tiro_vm_t vm;

    std::string text(size_t i) const { return args[i][1].is_string() ? args[i][1].get<std::string>() : args[i][1].dump(); }
    tiro_handle_t h(size_t i) const { return args[i][0] == "N" ? nullptr : S.reg(v, args[i][1]); }
    size_t z(size_t i) const { return std::strtoull(text(i).c_str(), nullptr, 10); }
    int64_t i(size_t k) const { return std::strtoll(text(k).c_str(), nullptr, 10); }
    double f(size_t k) const { return std::strtod(text(k).c_str(), nullptr); }
    bool b(size_t k) const { return args[k][1].get<bool>(); }
    tiro_string_t s(size_t k) const {
        if (args[k][0] == "S0")
            return tiro_string_t{nullptr, 3};
        const std::string& t = args[k][1].get_ref<const std::string&>();
        return tiro_string_t{t.data(), t.size()};
    }
    tiro_kind_t kind(size_t k) const {
        for (auto& p : api_kinds)
            if (args[k][1] == p.first)
                return p.second;
        return tiro_kind_t(12345);
    }
    static const char* kind_name(tiro_kind_t k) {
        for (auto& p : api_kinds)
            if (k == p.second)
                return p.first;
        return "?";
    }
};

json api_op(Session& S, Vm& v, const json& c) {
    if (c[0] != "api")
        return {};
    const std::string fn = c[2];
    const std::string mode = c.size() > 4 ? c[4].get<std::string>() : "";
    ApiCall a{S, v, c[3], mode == "novm" ? nullptr : v.vm};
    tiro_vm_t vm = a.vm;
    tiro_error_t error = nullptr;
    if (mode == "kept")
        tiro_make_boolean(nullptr, true, nullptr, &error); // reports BAD_ARG
    tiro_error_t before = error;
    tiro_error_t* err = mode == "noerr" ? nullptr : &error;
    json value = nullptr; // of functions without result handle
    int out = -1;         // operand number of the result handle

    if (fn == "kind") value = {"k", ApiCall::kind_name(tiro_value_kind(vm, a.h(0)))};
    else if (fn == "same") value = {"b", tiro_value_same(vm, a.h(0), a.h(1))};
    else if (fn == "to_string") tiro_value_to_string(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "copy") tiro_value_copy(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "type") tiro_value_type(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "kind_type") tiro_kind_type(vm, a.kind(0), a.h(out = 1), err);
    else if (fn == "make_null") tiro_make_null(vm, a.h(out = 0));
    else if (fn == "make_boolean") tiro_make_boolean(vm, a.b(0), a.h(out = 1), err);
    else if (fn == "boolean_value") value = {"b", tiro_boolean_value(vm, a.h(0))};
    else if (fn == "make_integer") tiro_make_integer(vm, a.i(0), a.h(out = 1), err);
    else if (fn == "integer_value") value = {"i", std::to_string(tiro_integer_value(vm, a.h(0)))};
    else if (fn == "make_float") tiro_make_float(vm, a.f(0), a.h(out = 1), err);
    else if (fn == "float_value") {
        char buf[64];
        snprintf(buf, sizeof buf, "%" PRId64 "/1024", int64_t(tiro_float_value(vm, a.h(0)) * 1024));
        value = {"f", std::string(buf)};
    } else if (fn == "make_string") tiro_make_string(vm, a.s(0), a.h(out = 1), err);
    else if (fn == "string_value") {
        tiro_string_t s{"untouched", 9};
        tiro_string_value(vm, a.h(0), a.b(1) ? &s : nullptr, err);
        value = {"s", std::string(s.data, s.length)};
    } else if (fn == "string_cstr") {
        char mark[] = "untouched";
        char* s = mark;
        tiro_string_cstr(vm, a.h(0), a.b(1) ? &s : nullptr, err);
        value = {"s", std::string(s)};
        if (s != mark)
            free(s);
    } else if (fn == "make_buffer") tiro_make_buffer(vm, a.z(0), a.h(out = 1), err);
    else if (fn == "buffer_size") value = {"i", std::to_string(tiro_buffer_size(vm, a.h(0)))};
    else if (fn == "buffer_is_pinned") value = {"b", tiro_buffer_is_pinned(vm, a.h(0))};
    else if (fn == "buffer_put") { // a write through the data pointer
        unsigned char* p = tiro_buffer_data(vm, a.h(0));
        if (p && a.z(1) < tiro_buffer_size(vm, a.h(0)))
            p[a.z(1)] = (unsigned char) a.z(2);
        value = {"b", p != nullptr};
    } else if (fn == "make_tuple") tiro_make_tuple(vm, a.z(0), a.h(out = 1), err);
    else if (fn == "tuple_size") value = {"i", std::to_string(tiro_tuple_size(vm, a.h(0)))};
    else if (fn == "tuple_get") tiro_tuple_get(vm, a.h(0), a.z(1), a.h(out = 2), err);
    else if (fn == "tuple_set") tiro_tuple_set(vm, a.h(0), a.z(1), a.h(2), err);
    else if (fn == "make_record_schema") tiro_make_record_schema(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "make_record") tiro_make_record(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "record_keys") tiro_record_keys(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "record_get") tiro_record_get(vm, a.h(0), a.h(1), a.h(out = 2), err);
    else if (fn == "record_set") tiro_record_set(vm, a.h(0), a.h(1), a.h(2), err);
    else if (fn == "make_array") tiro_make_array(vm, a.z(0), a.h(out = 1), err);
    else if (fn == "array_size") value = {"i", std::to_string(tiro_array_size(vm, a.h(0)))};
    else if (fn == "array_get") tiro_array_get(vm, a.h(0), a.z(1), a.h(out = 2), err);
    else if (fn == "array_set") tiro_array_set(vm, a.h(0), a.z(1), a.h(2), err);
    else if (fn == "array_push") tiro_array_push(vm, a.h(0), a.h(1), err);
    else if (fn == "array_pop") tiro_array_pop(vm, a.h(0), err);
    else if (fn == "array_clear") tiro_array_clear(vm, a.h(0), err);
    else if (fn == "make_success") tiro_make_success(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "make_error") tiro_make_error(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "is_success") value = {"b", tiro_result_is_success(vm, a.h(0))};
    else if (fn == "is_error") value = {"b", tiro_result_is_error(vm, a.h(0))};
    else if (fn == "result_value") tiro_result_value(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "result_error") tiro_result_error(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "exception_message") tiro_exception_message(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "exception_trace") tiro_exception_trace(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "make_coroutine") tiro_make_coroutine(vm, a.h(0), a.h(1), a.h(out = 2), err);
    else if (fn == "coroutine_started") value = {"b", tiro_coroutine_started(vm, a.h(0))};
    else if (fn == "coroutine_completed") value = {"b", tiro_coroutine_completed(vm, a.h(0))};
    else if (fn == "coroutine_result") tiro_coroutine_result(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "coroutine_start") tiro_coroutine_start(vm, a.h(0), err);
    else if (fn == "make_module") {
        // name, members present, result, then pairs of name and value
        std::vector<tiro_module_member_t> ms;
        for (size_t i = 3; i + 1 < a.args.size(); i += 2)
            ms.push_back({a.s(i), a.h(i + 1)});
        tiro_make_module(vm, a.s(0), a.b(1) ? ms.data() : nullptr, a.b(1) ? ms.size() : 1, a.h(out = 2), err);
    } else if (fn == "module_get_export") tiro_module_get_export(vm, a.h(0), a.s(1), a.h(out = 2), err);
    else if (fn == "load_module") tiro_vm_load_module(vm, a.h(0), err);
    else if (fn == "load_std") tiro_vm_load_std(vm, err);
    else if (fn == "load_bytecode") tiro_vm_load_bytecode(vm, nullptr, err);
    else if (fn == "get_export") tiro_vm_get_export(vm, a.s(0), a.s(1), a.h(out = 2), err);
    else if (fn == "run_ready") tiro_vm_run_ready(vm, err);
    else if (fn == "has_ready") value = {"b", tiro_vm_has_ready(vm)};
    else if (fn == "type_name") tiro_type_name(vm, a.h(0), a.h(out = 1), err);
    else if (fn == "make_native") {
        // size, alignment, type present, result
        std::string tn = "A" + a.text(1);
        auto it = S.types.find(tn);
        if (it == S.types.end()) {
            it = S.types.emplace(tn, tiro_native_type_t{}).first;
            it->second.name = str(it->first);
            it->second.alignment = a.z(1);
            it->second.finalizer = nullptr;
        }
        tiro_make_native(vm, a.b(2) ? &it->second : nullptr, a.z(0), a.h(out = 3), err);
    } else if (fn == "native_size") value = {"i", std::to_string(tiro_native_size(vm, a.h(0)))};
    else if (fn == "native_put") { // the tag shown for native objects is their content
        char* p = static_cast<char*>(tiro_native_data(vm, a.h(0)));
        size_t n = tiro_native_size(vm, a.h(0));
        std::string t = a.text(1);
        if (p)
            for (size_t i = 0; i < n; ++i)
                p[i] = i < t.size() ? t[i] : 0;
        value = {"b", p != nullptr};
    } else if (fn == "native_type") {
        const tiro_native_type_t* t = tiro_native_type_descriptor(vm, a.h(0));
        value = {"i", std::to_string(t ? t->alignment : 0)};
    } else if (fn == "make_sync_function" || fn == "make_async_function" || fn == "make_resumable_function") {
        // name, function present, parameters, closure, result, locals
        if (fn[5] == 's') tiro_make_sync_function(vm, a.h(0), a.b(1) ? api_sync : nullptr, a.z(2), a.h(3), a.h(out = 4), err);
        else if (fn[5] == 'a') tiro_make_async_function(vm, a.h(0), a.b(1) ? api_async : nullptr, a.z(2), a.h(3), a.h(out = 4), err);
        else {
            tiro_resumable_frame_desc_t d{};
            d.name = a.h(0);
            d.func = a.b(1) ? api_resumable : nullptr;
            d.arg_count = a.z(2);
            d.closure = a.h(3);
            d.local_count = a.z(5);
            tiro_make_resumable_function(vm, &d, a.h(out = 4), err);
        }
    } else if (fn == "null_frames") {
        // every frame and token function without a frame: all of them report BAD_ARG, counts are 0
        Tmp t(v.vm);
        json codes = json::array();
        auto add = [&] {
            codes.push_back(error ? code_name(tiro_error_errc(error)) : "OK");
            tiro_error_free(error);
            error = nullptr;
        };
        tiro_sync_frame_arg(nullptr, 0, t, &error), add();
        tiro_sync_frame_closure(nullptr, t, &error), add();
        tiro_sync_frame_return_value(nullptr, t, &error), add();
        tiro_sync_frame_panic_msg(nullptr, str("m"), &error), add();
        tiro_async_frame_arg(nullptr, 0, t, &error), add();
        tiro_async_frame_closure(nullptr, t, &error), add();
        tiro_async_frame_return_value(nullptr, t, &error), add();
        tiro_async_frame_panic_msg(nullptr, str("m"), &error), add();
        tiro_async_frame_yield(nullptr, &error), add();
        if (tiro_async_frame_token(nullptr, &error)) codes.push_back("token");
        add();
        tiro_async_token_return_value(nullptr, t, &error), add();
        tiro_async_token_panic_msg(nullptr, str("m"), &error), add();
        tiro_resumable_frame_arg(nullptr, 0, t, &error), add();
        tiro_resumable_frame_local(nullptr, 0, t, &error), add();
        tiro_resumable_frame_set_local(nullptr, 0, t, &error), add();
        tiro_resumable_frame_closure(nullptr, t, &error), add();
        tiro_resumable_frame_return_value(nullptr, t, &error), add();
        tiro_resumable_frame_panic_msg(nullptr, str("m"), &error), add();
        tiro_resumable_frame_invoke(nullptr, 1, t, nullptr, &error), add();
        tiro_resumable_frame_invoke_return(nullptr, t, &error), add();
        tiro_async_token_free(nullptr);
        tiro_global_free(nullptr);
        tiro_vm_free(nullptr);
        size_t n = tiro_sync_frame_arg_count(nullptr) + tiro_async_frame_arg_count(nullptr) + tiro_resumable_frame_arg_count(nullptr)
                   + tiro_resumable_frame_local_count(nullptr);
        value = {"codes", codes, std::to_string(n)};
    } else if (fn == "settings") {
        value = {"vm", std::to_string(tiro_vm_page_size(vm)), std::to_string(tiro_vm_max_heap_size(vm)), vm ? tiro_vm_userdata(vm) == &S : tiro_vm_userdata(vm) == nullptr};
    } else {
        emit({"hosterror", "api", c});
        _exit(4);
    }

    std::string rc = mode == "noerr" ? "-" : !error ? "OK" : mode == "kept" && error == before ? "kept" : code_name(tiro_error_errc(error));
    if (mode == "kept" && error == before && tiro_error_errc(error) != TIRO_ERROR_BAD_ARG)
        rc = "changed";
    tiro_error_free(error);
    if (value.is_null())
        value = out >= 0 && a.h(out) ? render(v.vm, a.h(out)) : json({"none"});
    return {"api", fn, rc, value};
}
