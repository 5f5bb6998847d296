// Entry point shared by the demonstrations: a demo() that throws vf::Violation (vf::fail, CHECK) has failed.
#pragma once
#define VF_NO_MAIN
#include "steps.hpp"
#include "tsetlini_state_json.hpp"
#include <thread>
void demo();
int main()
{
    vf::sh() = (vf::Shared *)calloc(1, sizeof(vf::Shared));
    try { demo(); }
    catch (vf::Violation const & v) { printf("FAILED: %s\n", v.msg.c_str()); return 1; }
    catch (std::exception const & e) { printf("FAILED: exception %s\n", e.what()); return 1; }
    puts("ok");
    return 0;
}
