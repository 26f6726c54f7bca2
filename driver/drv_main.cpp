#include "drv.h"
#include <iostream>
#include <fstream>
#include <ios>
#include <thread>
#include <mutex>
#include <unistd.h>

std::map<std::string, Op> & ops() { static std::map<std::string, Op> m; return m; }

J runOp(const J & a)
{
    J res = J::object();
    auto it = ops().find(a.at("op").get<std::string>());
    if (it == ops().end()) throw driver_error("unknown op " + a.at("op").get<std::string>());
    try { res["ok"] = it->second(a); }
    catch (const driver_error &) { throw; }
    catch (const nlohmann::json::exception & e) { throw driver_error(std::string("json: ") + e.what()); }
    catch (const std::invalid_argument &) { res["err"] = "invalid_argument"; }
    catch (const std::domain_error &) { res["err"] = "domain_error"; }
    catch (const std::out_of_range &) { res["err"] = "out_of_range"; }
    catch (const std::ios_base::failure &) { res["err"] = "io"; }
    catch (const std::runtime_error &) { res["err"] = "runtime_error"; }
    catch (const std::exception &) { res["err"] = "exception"; }
    catch (...) { res["err"] = "unknown"; }
    return res;
}

OP("reset") { resetAll(); return 0; }

// a file of the working directory: its lines, each but perhaps the last one ended by a newline
OP("file")
{
    std::ofstream f(S(a, "path").c_str(), std::ios::out | std::ios::binary | std::ios::trunc);
    const J & lines = a.at("lines");
    for (size_t i = 0; i < lines.size(); i++)
    {
        f << lines[i].get<std::string>();
        if ((i + 1 < lines.size()) || I(a, "last", 1)) f << "\n";
    }
    return 0;
}

// runs several operation lists, each in its own thread; results in order
OP("threads")
{
    const J & lists = a.at("lists");
    std::vector<J> out(lists.size(), J::array());
    std::vector<std::thread> th;
    int rounds = I(a, "rounds", 1);
    for (size_t i = 0; i < lists.size(); i++)
        th.emplace_back([&, i]() {
            inThread() = true;
            for (int r = 0; r < rounds; r++)
                for (auto & o : lists[i])
                {
                    try { out[i].push_back(runOp(o)); }
                    catch (const driver_error & e) { J x; x["drv"] = e.what; out[i].push_back(x); }
                }
        });
    for (auto & t : th) t.join();
    J r = J::array();
    for (auto & x : out) r.push_back(x);
    return r;
}

class NullBuf : public std::streambuf { int overflow(int c) { return c; } };

int main(int, char **)
{
    // the library prints diagnostics on cout/cerr: keep them out of the result stream
    static NullBuf nb;
    FILE * out = fdopen(dup(1), "w");
    std::cout.rdbuf(&nb);
    std::cerr.rdbuf(&nb);
    std::string line;
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        J a = J::parse(line);
        try
        {
            a["res"] = runOp(a);
        }
        catch (const driver_error & e)
        {
            fprintf(out, "{\"driver_error\":%s}\n", J(e.what).dump().c_str());
            fflush(out);
            return 3;
        }
        // latin-1 text must survive: replace invalid utf-8 rather than throw
        fprintf(out, "%s\n", a.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace).c_str());
        fflush(out);
    }
    return 0;
}
