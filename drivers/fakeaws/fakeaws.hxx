// A stand-in for the parts of the AWS SDK that z5 uses: an object store in a directory.
// The name of the bucket is the path of the directory, an object is the file of the
// same relative name.  Objects appear and change as a whole, listings are sorted and come in
// pages (fakes3::page, at most that many entries), an object ends where a directory would
// be no longer needed, as directories do not exist on an object store.
// fakes3::hook(kind, path) may make a request fail: 1 before it had an effect, 2 after.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace fakes3 {
inline int page = 3;                                  // entries of a page of a listing
inline int (*hook)(char, const char *) = nullptr;     // kinds: Get Head List Put Delete
inline std::recursive_mutex mutex;
inline std::atomic<long> requests{0};

// the storage calls are made directly: what z5 does with files is watched elsewhere
inline bool readFile(const std::string & p, std::string & out) {
    const int fd = int(::syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
    if(fd < 0) return false;
    out.clear();
    char b[65536]; long n;
    while((n = ::syscall(SYS_read, fd, b, sizeof(b))) > 0) out.append(b, std::size_t(n));
    ::syscall(SYS_close, fd);
    return n == 0;                                    // a directory is no object
}
inline bool makeDirs(const std::string & p) {
    for(std::size_t i = 1; i <= p.size(); ++i) if(i == p.size() || p[i] == '/') ::syscall(SYS_mkdirat, AT_FDCWD, p.substr(0, i).c_str(), 0777);
    struct stat st;
    return ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
inline bool writeFile(const std::string & p, const std::string & s) {
    if(!makeDirs(p.substr(0, p.rfind('/')))) return false;
    static std::atomic<long> n{0};
    const std::string t = p.substr(0, p.rfind('/')) + "/.fakes3put" + std::to_string(::getpid()) + "." + std::to_string(n++);
    const int fd = int(::syscall(SYS_openat, AT_FDCWD, t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666));
    if(fd < 0) return false;
    std::size_t at = 0;
    while(at < s.size()) { const long k = ::syscall(SYS_write, fd, s.data() + at, s.size() - at); if(k <= 0) break; at += std::size_t(k); }
    ::syscall(SYS_close, fd);
    if(at == s.size() && ::syscall(SYS_renameat2, AT_FDCWD, t.c_str(), AT_FDCWD, p.c_str(), 0) == 0) return true;
    ::syscall(SYS_unlinkat, AT_FDCWD, t.c_str(), 0);
    return false;
}
inline void removeFile(const std::string & root, const std::string & p) {
    if(::syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0) != 0) return;
    for(std::string d = p.substr(0, p.rfind('/')); d.size() > root.size(); d = d.substr(0, d.rfind('/')))
        if(::syscall(SYS_unlinkat, AT_FDCWD, d.c_str(), AT_REMOVEDIR) != 0) break;
}
inline std::vector<std::string> allKeys(const std::string & root) {
    namespace fs = std::filesystem;
    std::vector<std::string> v;
    std::error_code ec;
    for(fs::recursive_directory_iterator it(root, ec), end; !ec && it != end; it.increment(ec))
        if(it->is_regular_file()) {
            const std::string k = it->path().string().substr(root.size() + 1);
            if(k.find(".fakes3put") == std::string::npos) v.push_back(k);
        }
    std::sort(v.begin(), v.end());
    return v;
}
inline int ask(char kind, const std::string & p) { ++requests; return hook ? hook(kind, p.c_str()) : 0; }
}

#define AWS_PROP(T, N) private: T N##_{}; public: void Set##N(const T & x) { N##_ = x; } auto & With##N(const T & x) { N##_ = x; return *this; } const T & Get##N() const { return N##_; }

namespace Aws {
using String = std::string;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template<class T> using Vector = std::vector<T>;
template<class T, class... A> std::shared_ptr<T> MakeShared(const char *, A &&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
namespace Utils { namespace Logging {
enum class LogLevel { Off, Fatal, Error, Warn, Info, Debug, Trace };
struct LogSystemInterface { virtual ~LogSystemInterface() {} };
struct ConsoleLogSystem : LogSystemInterface { ConsoleLogSystem(const char *, LogLevel) {} ConsoleLogSystem(LogLevel) {} };
} }
struct LoggingOptions { Utils::Logging::LogLevel logLevel = Utils::Logging::LogLevel::Off;
                        std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn; };
struct SDKOptions { LoggingOptions loggingOptions; };
inline void InitAPI(const SDKOptions &) {}
inline void ShutdownAPI(const SDKOptions &) {}
namespace Http { enum class Scheme { HTTP, HTTPS };
enum class HttpResponseCode { REQUEST_NOT_MADE = -1, OK = 200, FORBIDDEN = 403, NOT_FOUND = 404, INTERNAL_SERVER_ERROR = 500 }; }
namespace Auth {
struct AWSCredentialsProvider { virtual ~AWSCredentialsProvider() {} };
struct AnonymousAWSCredentialsProvider : AWSCredentialsProvider {};
struct DefaultAWSCredentialsProviderChain : AWSCredentialsProvider {};
struct SimpleAWSCredentialsProvider : AWSCredentialsProvider { SimpleAWSCredentialsProvider(const String &, const String &) {} };
}
namespace Client {
struct ClientConfigurationInitValues { bool shouldDisableIMDS = false; };
template<class E> struct AWSError {
    E type{}; Http::HttpResponseCode code = Http::HttpResponseCode::REQUEST_NOT_MADE; String message, name;
    E GetErrorType() const { return type; }
    Http::HttpResponseCode GetResponseCode() const { return code; }
    const String & GetMessage() const { return message; }
    const String & GetExceptionName() const { return name; }
};
}
namespace S3 {
enum class S3Errors { UNKNOWN, INTERNAL_FAILURE, NO_SUCH_KEY, NO_SUCH_BUCKET, RESOURCE_NOT_FOUND, ACCESS_DENIED, NETWORK_CONNECTION };
typedef Client::AWSError<S3Errors> S3Error;
struct S3EndpointProvider {};
struct S3ClientConfiguration {
    S3ClientConfiguration(const Client::ClientConfigurationInitValues & = {}) {}
    long connectTimeoutMs = 0, requestTimeoutMs = 0; String region, endpointOverride; Http::Scheme scheme = Http::Scheme::HTTPS;
    bool useVirtualAddressing = true;
};
namespace Model {
class Object { AWS_PROP(String, Key) AWS_PROP(long long, Size) };
class CommonPrefix { AWS_PROP(String, Prefix) };
class ObjectIdentifier { AWS_PROP(String, Key) };
class Error { AWS_PROP(String, Key) AWS_PROP(String, Code) AWS_PROP(String, Message) };
class Delete { Vector<ObjectIdentifier> o_; bool quiet_ = false;
public: void AddObjects(const ObjectIdentifier & x) { o_.push_back(x); } void SetObjects(const Vector<ObjectIdentifier> & x) { o_ = x; }
    void SetQuiet(bool q) { quiet_ = q; } Delete & WithQuiet(bool q) { quiet_ = q; return *this; }
    const Vector<ObjectIdentifier> & GetObjects() const { return o_; } };
class ListObjectsV2Request { AWS_PROP(String, Bucket) AWS_PROP(String, Prefix) AWS_PROP(String, Delimiter) AWS_PROP(String, ContinuationToken) AWS_PROP(String, StartAfter)
    int max_ = 1000; public: void SetMaxKeys(int n) { max_ = n; } auto & WithMaxKeys(int n) { max_ = n; return *this; } int GetMaxKeys() const { return max_; } };
class ListObjectsV2Result { AWS_PROP(Vector<Object>, Contents) AWS_PROP(Vector<CommonPrefix>, CommonPrefixes) AWS_PROP(int, KeyCount) AWS_PROP(bool, IsTruncated)
    AWS_PROP(String, NextContinuationToken) };
class GetObjectRequest { AWS_PROP(String, Bucket) AWS_PROP(String, Key) AWS_PROP(String, Range) };
class GetObjectResult { long long n_ = -1; std::shared_ptr<std::stringstream> b_ = std::make_shared<std::stringstream>();
public: GetObjectResult() {} GetObjectResult(const String & s, long long n) : n_(n) { b_->write(s.data(), std::streamsize(s.size())); }
    long long GetContentLength() const { return n_; } std::iostream & GetBody() const { return *b_; } };
class PutObjectRequest { AWS_PROP(String, Bucket) AWS_PROP(String, Key) std::shared_ptr<std::iostream> b_;
public: void SetBody(const std::shared_ptr<std::iostream> & b) { b_ = b; } const std::shared_ptr<std::iostream> & GetBody() const { return b_; }
    void SetContentLength(long long) {} void SetContentType(const String &) {} };
class PutObjectResult {};
class HeadObjectRequest { AWS_PROP(String, Bucket) AWS_PROP(String, Key) };
class HeadObjectResult { AWS_PROP(long long, ContentLength) };
class DeleteObjectRequest { AWS_PROP(String, Bucket) AWS_PROP(String, Key) };
class DeleteObjectResult {};
class DeleteObjectsRequest { AWS_PROP(String, Bucket) AWS_PROP(Model::Delete, Delete) };
class DeleteObjectsResult { AWS_PROP(Vector<Error>, Errors) };
}
template<class R> class Outcome_ {
    R r_; S3Error e_; bool ok_;
public:
    Outcome_(R r) : r_(std::move(r)), ok_(true) {}
    Outcome_(S3Error e) : e_(std::move(e)), ok_(false) {}
    bool IsSuccess() const { return ok_; }
    const S3Error & GetError() const { return e_; }
    const R & GetResult() const { return r_; }
    R & GetResult() { return r_; }
    R GetResultWithOwnership() { return std::move(r_); }
};
namespace Model {
typedef Outcome_<ListObjectsV2Result> ListObjectsV2Outcome; typedef Outcome_<GetObjectResult> GetObjectOutcome;
typedef Outcome_<PutObjectResult> PutObjectOutcome; typedef Outcome_<HeadObjectResult> HeadObjectOutcome;
typedef Outcome_<DeleteObjectResult> DeleteObjectOutcome; typedef Outcome_<DeleteObjectsResult> DeleteObjectsOutcome;
}
class S3Client {
    static S3Error fail() { return {S3Errors::INTERNAL_FAILURE, Http::HttpResponseCode::INTERNAL_SERVER_ERROR, "We encountered an internal error. Please try again.", "InternalError"}; }
    static S3Error absent(bool head) { return {head ? S3Errors::RESOURCE_NOT_FOUND : S3Errors::NO_SUCH_KEY, Http::HttpResponseCode::NOT_FOUND, "no such key", "NoSuchKey"}; }
    // keys the directory cannot hold
    static bool plain(const String & k) { return !k.empty() && k.front() != '/' && k.back() != '/' && k.find("//") == String::npos && ("/" + k + "/").find("/../") == String::npos && ("/" + k + "/").find("/./") == String::npos; }
    static String at(const String & b, const String & k) { return b + "/" + k; }
public:
    template<class A, class B, class C> S3Client(const A &, const B &, const C &) {}
    Model::GetObjectOutcome GetObject(const Model::GetObjectRequest & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        const int f = fakes3::ask('G', at(q.GetBucket(), q.GetKey()));
        if(f == 1) return fail();
        String s;
        if(!plain(q.GetKey()) || !fakes3::readFile(at(q.GetBucket(), q.GetKey()), s)) return absent(false);
        const long long n = (long long) s.size();
        if(f == 2) s.resize(s.size() / 2);            // the connection ends early
        return Model::GetObjectResult(s, n);
    }
    Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        if(fakes3::ask('H', at(q.GetBucket(), q.GetKey()))) return fail();
        String s;
        if(!plain(q.GetKey()) || !fakes3::readFile(at(q.GetBucket(), q.GetKey()), s)) return absent(true);
        Model::HeadObjectResult r; r.SetContentLength((long long) s.size()); return r;
    }
    Model::PutObjectOutcome PutObject(const Model::PutObjectRequest & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        const int f = fakes3::ask('P', at(q.GetBucket(), q.GetKey()));
        if(f == 1) return fail();
        std::stringstream s; if(q.GetBody() && q.GetBody()->peek() != EOF) s << q.GetBody()->rdbuf();
        if(!plain(q.GetKey()) || !fakes3::writeFile(at(q.GetBucket(), q.GetKey()), s.str())) return fail();
        if(f == 2) return fail();                     // the answer was lost
        return Model::PutObjectResult();
    }
    Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        const int f = fakes3::ask('D', at(q.GetBucket(), q.GetKey()));
        if(f == 1) return fail();
        if(plain(q.GetKey())) fakes3::removeFile(q.GetBucket(), at(q.GetBucket(), q.GetKey()));
        if(f == 2) return fail();
        return Model::DeleteObjectResult();
    }
    Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        const auto & o = q.GetDelete().GetObjects();
        if(o.empty() || o.size() > 1000) return S3Error{S3Errors::UNKNOWN, Http::HttpResponseCode(400), "MalformedXML", "MalformedXML"};
        const int f = fakes3::ask('D', at(q.GetBucket(), o[0].GetKey()));
        if(f == 1) return fail();
        Vector<Model::Error> errors;
        for(std::size_t i = 0; i < o.size(); ++i) {
            if(f == 2 && i + 1 == o.size()) {         // objects are deleted one by one, and each can fail
                Model::Error e; e.SetKey(o[i].GetKey()); e.SetCode("InternalError"); e.SetMessage("We encountered an internal error. Please try again."); errors.push_back(e);
            } else fakes3::removeFile(q.GetBucket(), at(q.GetBucket(), o[i].GetKey()));
        }
        Model::DeleteObjectsResult r; r.SetErrors(errors); return r;
    }
    Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request & q) const {
        std::lock_guard<std::recursive_mutex> l(fakes3::mutex);
        if(fakes3::ask('L', at(q.GetBucket(), q.GetPrefix()))) return fail();
        struct stat st;
        if(::stat(q.GetBucket().c_str(), &st) != 0) return S3Error{S3Errors::NO_SUCH_BUCKET, Http::HttpResponseCode::NOT_FOUND, "no such bucket", "NoSuchBucket"};
        const int most = std::min(q.GetMaxKeys(), fakes3::page);
        const String & pre = q.GetPrefix(), & del = q.GetDelimiter(); const String from = std::max(q.GetContinuationToken(), q.GetStartAfter());
        Vector<Model::Object> keys; Vector<Model::CommonPrefix> prefixes; String last; bool more = false;
        for(const auto & k : fakes3::allKeys(q.GetBucket())) {
            if(k.compare(0, pre.size(), pre) != 0) continue;
            const auto d = del.empty() ? String::npos : k.find(del, pre.size());
            const String name = d == String::npos ? k : k.substr(0, d + del.size());
            if(!from.empty() && name <= from) continue;
            if(name == last) continue;
            if(int(keys.size() + prefixes.size()) >= most) { more = true; break; }
            last = name;
            if(d == String::npos) { Model::Object o; o.SetKey(k); keys.push_back(o); }
            else { Model::CommonPrefix p; p.SetPrefix(name); prefixes.push_back(p); }
        }
        Model::ListObjectsV2Result r;
        r.SetKeyCount(int(keys.size() + prefixes.size())); r.SetContents(keys); r.SetCommonPrefixes(prefixes);
        r.SetIsTruncated(more); if(more) r.SetNextContinuationToken(last);
        return r;
    }
};
}
}
