// One in-process conversion, as an embedding program (or vega's own test-suite) makes it.
#include "Commandline/VegaCommandLine.h"
#include <iostream>
#include <string>
int vsim_process(int ac, const char* av[], int shared) {
    try {
        if (shared) {
            static vega::VegaCommandLine* all = nullptr;      // one object for all conversions
            if (!all) {
                all = new vega::VegaCommandLine();
            }
            return static_cast<int>(all->process(ac, av));
        }
        vega::VegaCommandLine vcl;
        return static_cast<int>(vcl.process(ac, av));
    } catch (const std::exception& e) {
        std::cerr << "escaped exception: " << e.what() << std::endl;
        return 1000;
    } catch (...) {
        std::cerr << "escaped exception" << std::endl;
        return 1001;
    }
}
