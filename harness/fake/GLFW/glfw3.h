// A stand-in for GLFW: one window, whose events are played by a harness.
#pragma once

#include <functional>
#include <map>
#include <string>
#include <vector>

#define GLFW_RELEASE 0
#define GLFW_PRESS 1
#define GLFW_REPEAT 2

struct GLFWwindow;
struct GLFWmonitor;
typedef void (*GLFWglproc)(void);
typedef void (*GLFWerrorfun)(int, const char*);
typedef void (*GLFWsizefun)(GLFWwindow*, int, int);
typedef void (*GLFWkeyfun)(GLFWwindow*, int, int, int, int);
typedef void (*GLFWposfun)(GLFWwindow*, double, double);
typedef void (*GLFWbuttonfun)(GLFWwindow*, int, int, int);

struct GLFWwindow
{
    void*         user = nullptr;
    int           w = 0, h = 0, fw = 0, fh = 0;
    double        x = 0, y = 0;
    bool          close = false;
    int           swaps = 0;
    std::string   title{};
    std::map<int, int> keys{};
    GLFWsizefun   onFramebuffer = nullptr, onSize = nullptr;
    GLFWkeyfun    onKey = nullptr;
    GLFWposfun    onMove = nullptr, onScroll = nullptr;
    GLFWbuttonfun onButton = nullptr;
};

struct GlfwState
{
    GLFWwindow*           window = nullptr;
    double                time = 0; // since the last glfwSetTime
    bool                  initialised = false;
    // called by glfwPollEvents
    std::function<void()> poll{};
};
inline GlfwState glfwState{};

inline int          glfwInit() { return glfwState.initialised = true; }
inline void         glfwTerminate() { glfwState.initialised = false; }
inline GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; }
inline GLFWwindow*  glfwCreateWindow(int w, int h, const char* title, GLFWmonitor*, GLFWwindow*)
{
    auto* win = new GLFWwindow{};
    win->w = win->fw = w;
    win->h = win->fh = h;
    win->title       = title;
    return glfwState.window = win;
}
inline void glfwDestroyWindow(GLFWwindow* w)
{
    delete w;
    glfwState.window = nullptr;
}
inline void  glfwSetWindowUserPointer(GLFWwindow* w, void* p) { w->user = p; }
inline void* glfwGetWindowUserPointer(GLFWwindow* w) { return w->user; }
inline GLFWsizefun glfwSetFramebufferSizeCallback(GLFWwindow* w, GLFWsizefun f) { return w->onFramebuffer = f; }
inline GLFWsizefun glfwSetWindowSizeCallback(GLFWwindow* w, GLFWsizefun f) { return w->onSize = f; }
inline GLFWkeyfun  glfwSetKeyCallback(GLFWwindow* w, GLFWkeyfun f) { return w->onKey = f; }
inline GLFWposfun  glfwSetCursorPosCallback(GLFWwindow* w, GLFWposfun f) { return w->onMove = f; }
inline GLFWposfun  glfwSetScrollCallback(GLFWwindow* w, GLFWposfun f) { return w->onScroll = f; }
inline GLFWbuttonfun glfwSetMouseButtonCallback(GLFWwindow* w, GLFWbuttonfun f) { return w->onButton = f; }
inline void        glfwMakeContextCurrent(GLFWwindow*) {}
inline GLFWglproc  glfwGetProcAddress(const char*) { return nullptr; }
inline void        glfwSwapInterval(int) {}
inline void        glfwGetWindowSize(GLFWwindow* w, int* x, int* y) { *x = w->w, *y = w->h; }
inline void        glfwGetFramebufferSize(GLFWwindow* w, int* x, int* y) { *x = w->fw, *y = w->fh; }
inline void        glfwGetWindowContentScale(GLFWwindow* w, float* x, float* y) { *x = (float)w->fw / (float)w->w, *y = (float)w->fh / (float)w->h; }
inline void        glfwGetCursorPos(GLFWwindow* w, double* x, double* y) { *x = w->x, *y = w->y; }
inline int         glfwGetKey(GLFWwindow* w, int k) { return w->keys[k]; }
inline void        glfwSetWindowTitle(GLFWwindow* w, const char* t) { w->title = t; }
inline void        glfwSetTime(double t) { glfwState.time = t; }
inline double      glfwGetTime() { return glfwState.time; }
inline int         glfwWindowShouldClose(GLFWwindow* w) { return w->close; }
inline void        glfwSetWindowShouldClose(GLFWwindow* w, int c) { w->close = c; }
inline void        glfwSwapBuffers(GLFWwindow* w) { ++w->swaps; }
inline void        glfwPollEvents()
{
    if (glfwState.poll)
        glfwState.poll();
}
