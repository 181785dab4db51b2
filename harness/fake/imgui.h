// A stand-in for Dear ImGui: widgets do what the harness asks for, by label.
#pragma once

#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>

struct ImVec2
{
    float x = 0, y = 0;
    ImVec2() = default;
    ImVec2(float a, float b) : x{a}, y{b} {}
    float& operator[](std::size_t i) { return i ? y : x; }
    float  operator[](std::size_t i) const { return i ? y : x; }
};
struct ImVec4
{
    float x = 0, y = 0, z = 0, w = 0;
};
typedef unsigned int ImGuiID;
typedef int          ImGuiWindowFlags;
typedef int          ImGuiDir;

enum
{
    ImGuiWindowFlags_None             = 0,
    ImGuiWindowFlags_AlwaysAutoResize = 64,
    ImGuiTableFlags_Borders           = 1,
    ImGuiCol_WindowBg                 = 2,
    ImGuiCol_COUNT                    = 64,
    ImGuiDir_Left                     = 0,
    ImGuiDir_Right                    = 1,
    ImGuiDir_Up                       = 2,
    ImGuiDir_Down                     = 3,
    ImGuiConfigFlags_NavEnableKeyboard = 1,
    ImGuiConfigFlags_DockingEnable     = 64,
    ImGuiConfigFlags_ViewportsEnable   = 1024,
    ImGuiDockNodeFlags_PassthruCentralNode = 8,
    ImGuiDockNodeFlags_DockSpace           = 1024
};

struct ImGuiIO
{
    int   ConfigFlags         = 0;
    bool  WantCaptureKeyboard = false, WantCaptureMouse = false;
    float Framerate = 60;
};
struct ImGuiStyle
{
    ImVec4 Colors[ImGuiCol_COUNT];
};
struct ImGuiViewport
{
    ImVec2 WorkSize{640, 480}, Size{640, 480};
};
struct ImDrawData
{
};
struct ImGuiContext
{
};
struct ImGuiWindow
{
    std::string owned{};
    const char* Name = "";
    struct
    {
        ImVec2 CursorMaxPos{100, 50}, CursorStartPos{0, 0};
    } DC;
};

struct ImGuiState
{
    ImGuiIO       io{};
    ImGuiStyle    style{};
    ImGuiViewport viewport{};
    ImDrawData    data{};
    std::map<std::string, ImGuiWindow> windows{};
    ImGuiWindow*                       current = nullptr;
    int                                open    = 0; // windows between Begin and End
    std::string                        error{};

    std::set<std::string>        clicks{};  // buttons, selectables, menu items, check boxes
    std::map<std::string, float> slides{};  // sliders that are moved
    std::set<std::string>        seen{};    // labels
    std::vector<std::string>     texts{};
    std::vector<std::string>     path{}; // of menus
    bool                         menus = true;

    bool click(const char* label)
    {
        seen.insert(label);
        return clicks.erase(label) > 0;
    }
};
inline ImGuiState imguiState{};

#define IMGUI_CHECKVERSION()

namespace ImGui
{
inline ImGuiContext* CreateContext()
{
    imguiState.io = {};
    return nullptr;
}
inline void           DestroyContext() {}
inline ImGuiIO&       GetIO() { return imguiState.io; }
inline ImGuiStyle&    GetStyle() { return imguiState.style; }
inline ImGuiViewport* GetMainViewport() { return &imguiState.viewport; }
inline ImDrawData*    GetDrawData() { return &imguiState.data; }
inline void           StyleColorsDark() {}
inline void           NewFrame() {}
inline void           Render() {}
inline void           UpdatePlatformWindows() {}
inline void           RenderPlatformWindowsDefault() {}

inline bool Begin(const char* name, bool* = nullptr, int = 0)
{
    ImGuiWindow& w = imguiState.windows[name];
    w.owned        = name;
    w.Name         = w.owned.c_str();
    imguiState.current = &w;
    ++imguiState.open;
    imguiState.seen.insert(name);
    return true;
}
inline void End()
{
    if (--imguiState.open < 0)
        imguiState.error = "End without Begin";
}
inline bool BeginMainMenuBar() { return imguiState.menus; }
inline void EndMainMenuBar() {}
inline bool BeginMenu(const char* label)
{
    if (imguiState.menus)
        imguiState.path.push_back(label);
    return imguiState.menus;
}
inline void EndMenu()
{
    if (imguiState.path.empty())
        imguiState.error = "EndMenu without BeginMenu";
    else
        imguiState.path.pop_back();
}
inline bool MenuItem(const char* label, const char* = nullptr, bool* p = nullptr)
{
    std::string path;
    for (auto& m : imguiState.path)
        path += m + "/";
    bool c = imguiState.click((path + label).c_str());
    if (c && p)
        *p = !*p;
    return c;
}
inline bool Selectable(const char* label, bool* p)
{
    bool c = imguiState.click(label);
    if (c && p)
        *p = !*p;
    return c;
}
inline bool Button(const char* label) { return imguiState.click(label); }
inline bool Checkbox(const char* label, bool* p)
{
    bool c = imguiState.click(label);
    if (c)
        *p = !*p;
    return c;
}
template <class T>
bool slide(const char* label, T* p, T lo, T hi)
{
    imguiState.seen.insert(label);
    auto it = imguiState.slides.find(label);
    if (it == imguiState.slides.end())
        return false;
    T v = (T)it->second;
    imguiState.slides.erase(it);
    *p = v < lo ? lo : v > hi ? hi : v;
    return true;
}
inline bool SliderInt(const char* label, int* p, int lo, int hi) { return slide(label, p, lo, hi); }
inline bool SliderFloat(const char* label, float* p, float lo, float hi) { return slide(label, p, lo, hi); }
inline bool SliderFloat2(const char* label, float p[2], float lo, float hi)
{
    bool c = slide(label, p, lo, hi);
    if (c)
        p[1] = p[0];
    return c;
}
inline bool ColorEdit3(const char* label, float p[3])
{
    bool c = slide(label, p, 0.f, 1.f);
    if (c)
        p[1] = 1 - p[0], p[2] = p[0] / 2;
    return c;
}
inline void Text(const char* format, ...)
{
    char    buffer[256];
    va_list args;
    va_start(args, format);
    vsnprintf(buffer, sizeof buffer, format, args);
    va_end(args);
    imguiState.texts.push_back(buffer);
}
inline void SameLine() {}
inline void Separator() {}
inline void PushItemWidth(float) {}
inline void PopItemWidth() {}
inline bool BeginTable(const char*, int, int = 0) { return true; }
inline void EndTable() {}
inline void TableSetupColumn(const char*) {}
inline void TableHeadersRow() {}
inline void TableNextRow() {}
inline bool TableNextColumn() { return true; }
} // namespace ImGui
