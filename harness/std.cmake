set(CMAKE_CXX11_STANDARD_COMPILE_OPTION "-std=c++14")
