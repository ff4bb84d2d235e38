// A theory library that follows the documented interface and logs all calls.
#include <clingo.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct clingo_ast clingo_ast_t_;
typedef int PRE(value_type_t);
typedef struct PRE(value) {
    PRE(value_type_t) type;
    union {
        int int_number;
        double double_number;
        clingo_symbol_t symbol;
    };
} PRE(value_t);
typedef struct entry {
    unsigned thread;
    clingo_symbol_t symbol;
    bool has;
    PRE(value_t) value;
} entry_t;
typedef struct PRE(theory) {
    int id;
    entry_t entries[64];
    size_t size;
} PRE(theory_t);
typedef bool (*PRE(ast_callback_t))(clingo_ast_t *ast, void *data);

static char log_[1 << 20];
static size_t log_size_;
static int next_ = 1, copies_ = 1, version_[3] = {1, 2, 3};
static char fail_[256];
static bool has_fail_;

static void put(char const *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t left = sizeof(log_) - log_size_;
    int n = vsnprintf(log_ + log_size_, left, fmt, ap);
    if (n > 0 && (size_t)n < left) { log_size_ += n; }
    va_end(ap);
}
static bool done(void) {
    if (has_fail_) {
        has_fail_ = false;
        clingo_set_error(clingo_error_runtime, fail_);
        return false;
    }
    return true;
}

char const *vt_log(void) { return log_; }
void vt_clear(void) { log_size_ = 0; log_[0] = '\0'; }
void vt_fail(char const *message) { has_fail_ = message[0] != '\0'; snprintf(fail_, sizeof(fail_), "%s", message); }
void vt_script(int copies) { copies_ = copies; }
void vt_version(int a, int b, int c) { version_[0] = a; version_[1] = b; version_[2] = c; }
void vt_put(PRE(theory_t) *theory, uint32_t thread, clingo_symbol_t symbol, bool has, PRE(value_t) *value) {
    entry_t *e = &theory->entries[theory->size++ % 64];
    e->thread = thread; e->symbol = symbol; e->has = has; e->value = *value;
}

bool PRE(create)(PRE(theory_t) **theory) {
    *theory = (PRE(theory_t) *)calloc(1, sizeof(PRE(theory_t)));
    (*theory)->id = next_++;
    put("create %p\1", (void *)*theory);
    return done();
}
bool PRE(destroy)(PRE(theory_t) *theory) {
    put("destroy %p\1", (void *)theory);
    free(theory);
    return true;  // the time of destruction is unspecified
}
void PRE(version)(int *major, int *minor, int *patch) {
    put("version\1");
    *major = version_[0]; *minor = version_[1]; *patch = version_[2];
}
bool PRE(register)(PRE(theory_t) *theory, clingo_control_t *control) {
    put("register %p %p\1", (void *)theory, (void *)control);
    return done();
}
bool PRE(prepare)(PRE(theory_t) *theory, clingo_control_t *control) {
    put("prepare %p %p\1", (void *)theory, (void *)control);
    return done();
}
bool PRE(rewrite_ast)(PRE(theory_t) *theory, clingo_ast_t *ast, PRE(ast_callback_t) add, void *data) {
    put("rewrite %p %p\1", (void *)theory, (void *)ast);
    bool ok = true;
    for (int i = 0; i < copies_ && ok; ++i) {
        if (i % 2 == 0) { ok = add(ast, data); }
        else {
            clingo_ast_t *copy;
            if (!clingo_ast_deep_copy(ast, &copy)) { return false; }
            ok = add(copy, data);
            clingo_ast_release(copy);
        }
    }
    return ok && done();
}
bool PRE(register_options)(PRE(theory_t) *theory, clingo_options_t *options) {
    put("register_options %p %p\1", (void *)theory, (void *)options);
    return done();
}
bool PRE(validate_options)(PRE(theory_t) *theory) {
    put("validate_options %p\1", (void *)theory);
    return done();
}
bool PRE(on_model)(PRE(theory_t) *theory, clingo_model_t *model) {
    uint64_t number = 0;
    if (!clingo_model_number(model, &number)) { return false; }
    put("on_model %p %llu\1", (void *)theory, (unsigned long long)number);
    clingo_symbol_t s[64];
    size_t n = 0;
    for (; n < theory->size && n < 64; ++n) { s[n] = theory->entries[n].symbol; }
    return clingo_model_extend(model, s, n) && done();
}
bool PRE(on_statistics)(PRE(theory_t) *theory, clingo_statistics_t *step, clingo_statistics_t *accu) {
    put("on_statistics %p\1", (void *)theory);
    uint64_t root, key;
    clingo_statistics_t *st[] = {step, accu};
    for (int i = 0; i < 2; ++i) {
        if (!clingo_statistics_root(st[i], &root) || !clingo_statistics_map_add_subkey(st[i], root, i ? "accu" : "step", clingo_statistics_type_value, &key) ||
            !clingo_statistics_value_set(st[i], key, i + (double)theory->size)) { return false; }
    }
    return done();
}
bool PRE(lookup_symbol)(PRE(theory_t) *theory, clingo_symbol_t symbol, size_t *index) {
    put("lookup %p %llu\1", (void *)theory, (unsigned long long)symbol);
    for (size_t i = 0; i < theory->size; ++i) {
        if (clingo_symbol_is_equal_to(theory->entries[i].symbol, symbol)) { *index = i; return true; }
    }
    *index = 4711;
    return false;
}
clingo_symbol_t PRE(get_symbol)(PRE(theory_t) *theory, size_t index) {
    put("get_symbol %p %zu\1", (void *)theory, index);
    return theory->entries[index].symbol;
}
void PRE(assignment_begin)(PRE(theory_t) *theory, uint32_t thread_id, size_t *index) {
    put("begin %p %u\1", (void *)theory, thread_id);
    *index = (size_t)-1;
}
bool PRE(assignment_next)(PRE(theory_t) *theory, uint32_t thread_id, size_t *index) {
    for (size_t i = *index + 1; i < theory->size; ++i) {
        if (theory->entries[i].thread == thread_id && theory->entries[i].has) { *index = i; return true; }
    }
    return false;
}
bool PRE(assignment_has_value)(PRE(theory_t) *theory, uint32_t thread_id, size_t index) {
    put("has %p %u %zu\1", (void *)theory, thread_id, index);
    return theory->entries[index].thread == thread_id && theory->entries[index].has;
}
void PRE(assignment_get_value)(PRE(theory_t) *theory, uint32_t thread_id, size_t index, PRE(value_t) *value) {
    put("value %p %u %zu\1", (void *)theory, thread_id, index);
    *value = theory->entries[index].value;
}
bool PRE(configure)(PRE(theory_t) *theory, char const *key, char const *value) {
    put("configure %p %s=%s\1", (void *)theory, key, value);
    return done();
}
