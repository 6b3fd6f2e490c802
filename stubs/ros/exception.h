#pragma once
#include <stdexcept>
#include <string>
namespace ros { class Exception : public std::runtime_error { public: Exception(const std::string& w) : std::runtime_error(w) {} };
class InvalidNodeNameException : public Exception { public: InvalidNodeNameException(const std::string&, const std::string& r) : Exception(r) {} };
class InvalidNameException : public Exception { public: InvalidNameException(const std::string& m) : Exception(m) {} };
class InvalidParameterException : public Exception { public: InvalidParameterException(const std::string& m) : Exception(m) {} };
}
