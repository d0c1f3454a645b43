"""The fixed parts of the root module file."""
PARTS = [
    '#include <map>\n#include <algorithm>\n#include <functional>\n#include <memory>\n#include <stdexcept>\n#include <string>\n\n#include <',
    '>\n\nusing ModuleGetter = std::function< pybind11::module & (std::string const &) >;\n\n',
    '\n\nPYBIND11_MODULE(',
    ', root_module) {\n\troot_module.doc() = "',
    ' module";\n\n\tstd::map <std::string, pybind11::module> modules;\n\tModuleGetter M = [&](std::string const &namespace_) -> pybind11::module & {\n\t\tauto it = modules.find(namespace_);\n\t\tif( it == modules.end() ) throw std::runtime_error("Attempt to access pybind11::module for namespace " + namespace_ + " before it was created!!!");\n\t\treturn it->second;\n\t};\n\n\tmodules[""] = root_module;\n\n\tstatic std::vector<std::string> const reserved_python_words {"nonlocal", "global", };\n\n\tauto mangle_namespace_name(\n\t\t[](std::string const &ns) -> std::string {\n\t\t\tif ( std::find(reserved_python_words.begin(), reserved_python_words.end(), ns) == reserved_python_words.end() ) return ns;\n\t\t\treturn ns+\'_\';\n\t\t}\n\t);\n\n\tstd::vector< std::pair<std::string, std::string> > sub_modules {\n',
    '\t};\n\tfor(auto &p : sub_modules ) modules[ p.first.empty() ? p.second :  p.first+"::"+p.second ] = modules[p.first].def_submodule( mangle_namespace_name(p.second).c_str(), ("Bindings for " + p.first + "::" + p.second + " namespace").c_str() );\n\n\t//pybind11::class_<std::shared_ptr<void>>(M(""), "_encapsulated_data_");\n\n',
    '\n}\n',
]
