#pragma once
#include <pluginlib/class_loader.hpp>
// Registers class_type under "pkg/Name" the way plugin xml files do: the harness maps names; here we only keep the factory.
namespace pluginlib { inline std::map<std::string, std::function<void*()>>& exported() { static std::map<std::string, std::function<void*()>> m; return m; }
struct Exporter { Exporter(const char* n, std::function<void*()> f) { exported()[n] = f; } }; }
#define PLUGINSTUB_CAT2(a, b) a##b
#define PLUGINSTUB_CAT(a, b) PLUGINSTUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(class_type, base_type) \
  static ::pluginlib::Exporter PLUGINSTUB_CAT(pluginstub_exporter_, __COUNTER__)(#class_type, []() -> void* { return static_cast<base_type*>(new class_type()); });
