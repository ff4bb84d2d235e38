/* Interposed between a binding built from /repo (clingo.h 5.8) and the installed
 * libclingo 5.6.2: supplies the nine functions that 5.6.2 lacks, adapts the two
 * whose signature changed, and logs the calls so that they can be observed. */
#define _GNU_SOURCE
#include <clingo.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static char *log_buf;
static size_t log_len;
static int fail_next;
static clingo_model_t const *last_model;

static void logf_(char const *fmt, ...) {
    va_list ap;
    char tmp[4096];
    va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(tmp)) {
        n = sizeof(tmp) - 1;
    }
    pthread_mutex_lock(&mutex);
    log_buf = realloc(log_buf, log_len + n + 1);
    memcpy(log_buf + log_len, tmp, n + 1);
    log_len += n;
    pthread_mutex_unlock(&mutex);
}

static bool ret(void) {
    if (fail_next > 0 && --fail_next == 0) {
        clingo_set_error(clingo_error_runtime, "compat58: requested failure");
        return false;
    }
    return true;
}

static struct {
    clingo_propagate_init_t const *init;
    clingo_propagator_undo_mode_t mode;
} undo_mode;

/* interface for the harness */
CLINGO_VISIBILITY_DEFAULT char const *compat58_log(void) { return log_buf ? log_buf : ""; }
CLINGO_VISIBILITY_DEFAULT void compat58_clear(void) {
    undo_mode.init = NULL;
    last_model = NULL;
    log_len = 0;
    if (log_buf) {
        *log_buf = 0;
    }
}
CLINGO_VISIBILITY_DEFAULT void compat58_reset_undo(void) { undo_mode.init = NULL; }
CLINGO_VISIBILITY_DEFAULT void compat58_fail(int nth) { fail_next = nth; }
CLINGO_VISIBILITY_DEFAULT void compat58_set_last(clingo_model_t const *m) { last_model = m; }

/* missing functions */
bool clingo_control_load_aspif(clingo_control_t *control, char const **files, size_t size) {
    (void)control;
    logf_("load_aspif(");
    for (size_t i = 0; i != size; ++i) {
        logf_("%s;", files[i]);
    }
    logf_(")\n");
    return ret();
}
bool clingo_control_register_backend(clingo_control_t *control, clingo_backend_type_t type, char const *file,
                                     bool replace) {
    (void)control;
    logf_("register_backend(%u,%s,%d)\n", type, file, replace);
    return ret();
}
bool clingo_control_remove_minimize(clingo_control_t *control) {
    (void)control;
    logf_("remove_minimize()\n");
    return ret();
}
bool clingo_control_update_project(clingo_control_t *control, clingo_atom_t const *atoms, size_t size, bool append) {
    (void)control;
    logf_("update_project(");
    for (size_t i = 0; i != size; ++i) {
        logf_("%u;", atoms[i]);
    }
    logf_("%d)\n", append);
    return ret();
}
bool clingo_model_is_consequence(clingo_model_t const *model, clingo_literal_t literal, clingo_consequence_t *result) {
    bool t = false;
    if (!clingo_model_is_true(model, literal, &t)) {
        return false;
    }
    *result = literal % 3 == 0 ? clingo_consequence_unknown : t ? clingo_consequence_true : clingo_consequence_false;
    return true;
}
bool clingo_model_priority(clingo_model_t const *model, clingo_weight_t *priorities, size_t size) {
    size_t n = 0;
    if (!clingo_model_cost_size(model, &n)) {
        return false;
    }
    if (size < n) {
        clingo_set_error(clingo_error_logic, "not enough space");
        return false;
    }
    for (size_t i = 0; i != n; ++i) {
        priorities[i] = 7 - 4 * (clingo_weight_t)i;
    }
    return true;
}
void clingo_propagate_init_set_undo_mode(clingo_propagate_init_t *init, clingo_propagator_undo_mode_t mode) {
    logf_("set_undo_mode(%d)\n", mode);
    undo_mode.init = init;
    undo_mode.mode = mode;
}
clingo_propagator_undo_mode_t clingo_propagate_init_get_undo_mode(clingo_propagate_init_t const *init) {
    return undo_mode.init == init ? undo_mode.mode : clingo_propagator_undo_mode_default;
}
bool clingo_solve_handle_last(clingo_solve_handle_t *handle, clingo_model_t const **model) {
    if (last_model) {
        logf_("last()\n");
        *model = last_model;
        return ret();
    }
    return clingo_solve_handle_model(handle, model);
}

/* changed functions */
bool clingo_backend_theory_term_sequence(clingo_backend_t *backend, clingo_theory_sequence_type_t type,
                                         clingo_id_t const *arguments, size_t size, clingo_id_t *term_id) {
    static bool (*f)(clingo_backend_t *, int, clingo_id_t const *, size_t, clingo_id_t *);
    if (!f) {
        f = dlsym(RTLD_NEXT, "clingo_backend_theory_term_sequence");
    }
    return f(backend, type == 1 ? 2 : type == 2 ? 1 : type, arguments, size, term_id);
}
static bool pick(clingo_backend_t *backend, clingo_atom_t atom, clingo_atom_t *atom_id) {
    *atom_id = atom;
    return atom != UINT32_MAX || clingo_backend_add_atom(backend, NULL, atom_id);
}
bool clingo_backend_theory_atom(clingo_backend_t *backend, clingo_atom_t atom, clingo_id_t term_id,
                                clingo_id_t const *elements, size_t size, clingo_atom_t *atom_id) {
    static bool (*f)(clingo_backend_t *, clingo_atom_t, clingo_id_t, clingo_id_t const *, size_t);
    if (!f) {
        f = dlsym(RTLD_NEXT, "clingo_backend_theory_atom");
    }
    return pick(backend, atom, atom_id) && f(backend, *atom_id, term_id, elements, size);
}
bool clingo_backend_theory_atom_with_guard(clingo_backend_t *backend, clingo_atom_t atom, clingo_id_t term_id,
                                           clingo_id_t const *elements, size_t size, char const *operator_name,
                                           clingo_id_t right_hand_side_id, clingo_atom_t *atom_id) {
    static bool (*f)(clingo_backend_t *, clingo_atom_t, clingo_id_t, clingo_id_t const *, size_t, char const *,
                     clingo_id_t);
    if (!f) {
        f = dlsym(RTLD_NEXT, "clingo_backend_theory_atom_with_guard");
    }
    return pick(backend, atom, atom_id) && f(backend, *atom_id, term_id, elements, size, operator_name, right_hand_side_id);
}
