// Stand-in for pluginlib::ClassLoader: factories come from an in-process registry keyed by base class name.
#pragma once
#include <ros/common.h>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace pluginlib {
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& e) : std::runtime_error(e) {} };
class ClassLoaderException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class LibraryLoadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class LibraryUnloadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class CreateClassException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class InvalidXMLException : public PluginlibException { public: using PluginlibException::PluginlibException; };
struct ClassDesc { std::function<void*()> make; };
inline std::map<std::string, std::vector<std::pair<std::string, ClassDesc>>>& registry() {
  static std::map<std::string, std::vector<std::pair<std::string, ClassDesc>>> r; return r; }
inline std::map<std::string, int>& loaders_created() { static std::map<std::string, int> m; return m; }
inline std::function<void(const std::string&)>& ctor_hook() { static std::function<void(const std::string&)> f; return f; }
template <class T> class ClassLoader {
public:
  typedef std::unique_ptr<T, std::function<void(T*)>> UPtr;
  ClassLoader(const std::string& package, const std::string& base, const std::string& = "plugin", const std::vector<std::string>& = std::vector<std::string>()) : package_(package), base_(base) {
    loaders_created()[base]++; if (ctor_hook()) ctor_hook()(base); refreshDeclaredClasses(); }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> v; for (auto& e : classes_) v.push_back(e.first); return v; }
  bool isClassAvailable(const std::string& n) { for (auto& e : classes_) if (e.first == n) return true; return false; }
  bool isClassLoaded(const std::string& n) { return isClassAvailable(n); }
  void loadLibraryForClass(const std::string&) {} int unloadLibraryForClass(const std::string&) { return 0; }
  void refreshDeclaredClasses() { classes_ = registry()[base_]; }   // the manifests are read when the loader is made
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string& n) { return n; }
  UPtr createUniqueInstance(const std::string& n) { return UPtr(createUnmanagedInstance(n), [](T* p) { delete p; }); }
  std::shared_ptr<T> createInstance(const std::string& n) { return std::shared_ptr<T>(createUnmanagedInstance(n)); }
  T* createUnmanagedInstance(const std::string& n) {
    for (auto& e : classes_) if (e.first == n) return static_cast<T*>(e.second.make());
    throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist."); }
private:
  std::string package_, base_; std::vector<std::pair<std::string, ClassDesc>> classes_;
};
}
