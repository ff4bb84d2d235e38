// Applications and functions that call code in C++ through the C interface.
#include "cppclingo.hh"

namespace {

struct App : Application {
    App(bp::object o) : o(o) {
        text(name, "program_name");
        text(vers, "version");
    }
    void text(std::unique_ptr<std::string> &t, char const *n) {
        if (has(n)) {
            t = std::make_unique<std::string>(bp::extract<std::string>(o.attr(n))());
        }
    }
    bool has(char const *n) const { return PyObject_HasAttrString(o.ptr(), n) != 0; }
    unsigned message_limit() const noexcept override {
        Gil g;
        return has("message_limit") ? bp::extract<unsigned>(o.attr("message_limit"))() : Application::message_limit();
    }
    char const *program_name() const noexcept override { return name ? name->c_str() : Application::program_name(); }
    char const *version() const noexcept override { return vers ? vers->c_str() : Application::version(); }
    void main(Control &ctl, StringSpan files) override {
        py([&] {
            auto f = span(files, Str());
            auto c = std::make_unique<Ctl>(std::make_unique<Control>(std::move(ctl)));
            o.attr("main")(boost::ref(*c), f);
        });
    }
    void log(WarningCode code, char const *message) noexcept override {
        bool h = false;
        nothrow([&] {
            if ((h = has("logger"))) {
                o.attr("logger")(show(code), std::string(message));
            }
        });
        if (!h) {
            Application::log(code, message);
        }
    }
    void print_model(Model const &model, std::function<void()> printer) noexcept override {
        bool h = false;
        nothrow([&] {
            if ((h = has("print_model"))) {
                auto print = [&] {
                    NoGil n;
                    printer();
                };
                o.attr("print_model")(PModel{&model, nullptr},
                                      bp::make_function(std::function<void()>(print), bp::default_call_policies(), boost::mpl::vector1<void>()));
            }
        });
        if (!h) {
            Application::print_model(model, printer);
        }
    }
    void register_options(ClingoOptions &options) override;
    void validate_options() override {
        bool h = false;
        py([&] {
            if ((h = has("validate_options"))) {
                o.attr("validate_options")();
            }
        });
        if (!h) {
            Application::validate_options();
        }
    }
    bp::object o;
    std::unique_ptr<std::string> name, vers;
    std::list<bool> flags;
};

struct Options {
    ClingoOptions *opts;
    App *app;
};

void add_option(Options &x, std::string const &group, std::string const &spec, std::string const &desc, bp::object fun, bool multi, bp::object arg) {
    // destroyed without the interpreter
    auto *o = new bp::object(fun);
    auto f = [o](char const *value) { return py([&]() -> bool { return bp::extract<bool>((*o)(std::string(value)))(); }); };
    std::string a;
    if (arg.is_none()) {
        multi ? x.opts->add(group.c_str(), spec.c_str(), desc.c_str(), f, multi) : x.opts->add(group.c_str(), spec.c_str(), desc.c_str(), f);
    } else {
        a = bp::extract<std::string>(arg)();
        x.opts->add(group.c_str(), spec.c_str(), desc.c_str(), f, multi, a.c_str());
    }
}
bp::object add_flag(Options &x, std::string const &group, std::string const &spec, std::string const &desc, bool init) {
    x.app->flags.push_back(init);
    auto &f = x.app->flags.back();
    x.opts->add_flag(group.c_str(), spec.c_str(), desc.c_str(), f);
    return bp::make_function(std::function<bool()>([&f] { return f; }), bp::default_call_policies(), boost::mpl::vector1<bool>());
}
void App::register_options(ClingoOptions &options) {
    bool h = false;
    py([&] {
        if ((h = has("register_options"))) {
            ck(options.to_c() != nullptr, "options");
            o.attr("register_options")(Options{&options, this});
        }
    });
    if (!h) {
        Application::register_options(options);
    }
}

int app_main(bp::object o, bp::object args) {
    App app{o};
    auto a = strs(args);
    auto c = cstrs(a);
    int ret;
    {
        NoGil n;
        ret = clingo_main(app, StringSpan{c.data(), c.size()});
    }
    return ret;
}

} // namespace

void export_app() {
    using namespace bp;
    class_<Options>("ClingoOptions", no_init).def("add", add_option).def("add_flag", add_flag);
    def("clingo_main", app_main);
}
