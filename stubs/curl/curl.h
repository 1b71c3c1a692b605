// stand-in for libcurl: what a transfer does is told by the test
#pragma once
#include <cstddef>
#include <functional>
#include <string>
enum CURLcode { CURLE_OK = 0, CURLE_HTTP_RETURNED_ERROR = 22, CURLE_WRITE_ERROR = 23 };
enum CURLoption { CURLOPT_URL, CURLOPT_WRITEFUNCTION, CURLOPT_WRITEDATA, CURLOPT_FOLLOWLOCATION, CURLOPT_ACCEPT_ENCODING, CURLOPT_FAILONERROR, CURLOPT_CAINFO, CURLOPT_SSL_OPTIONS };
#define CURL_GLOBAL_DEFAULT 3
#define CURLSSLOPT_NATIVE_CA 16
struct CURL {
    std::string url, encoding;
    size_t (*write)(void*, size_t, size_t, void*) = nullptr;
    void* data = nullptr;
    bool fail_on_error = false, encoded = false;
};
namespace curl_stub {
inline std::function<CURLcode(CURL&)> transfer;
inline int open = 0;
inline bool no_handle = false;
} // namespace curl_stub
inline CURLcode curl_global_init(long) { return CURLE_OK; }
inline CURL* curl_easy_init()
{
    if (curl_stub::no_handle) return nullptr;
    ++curl_stub::open;
    return new CURL;
}
inline void curl_easy_cleanup(CURL* c) { --curl_stub::open, delete c; }
inline CURLcode curl_easy_perform(CURL* c) { return curl_stub::transfer(*c); }
inline const char* curl_easy_strerror(CURLcode) { return "error"; }
template <class T> CURLcode curl_easy_setopt(CURL* c, CURLoption o, T v)
{
    if constexpr (std::is_convertible_v<T, size_t (*)(void*, size_t, size_t, void*)>) c->write = v;
    else if constexpr (std::is_convertible_v<T, const char*>) {
        if (o == CURLOPT_URL) c->url = v;
        if (o == CURLOPT_ACCEPT_ENCODING) c->encoding = v, c->encoded = true;
    } else if constexpr (std::is_pointer_v<T>) {
        if (o == CURLOPT_WRITEDATA) c->data = static_cast<void*>(v);
    } else if (o == CURLOPT_FAILONERROR) c->fail_on_error = v != 0;
    return CURLE_OK;
}
