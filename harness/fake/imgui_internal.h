#pragma once
#include "imgui.h"
namespace ImGui
{
inline ImGuiID DockSpaceOverViewport(ImGuiID, const ImGuiViewport*, int = 0) { return 1; }
inline void    DockBuilderRemoveNode(ImGuiID) {}
inline ImGuiID DockBuilderAddNode(ImGuiID, int = 0) { return 1; }
inline void    DockBuilderSetNodeSize(ImGuiID, ImVec2) {}
inline ImGuiID DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID* a, ImGuiID* b)
{
    if (a)
        *a = 2;
    if (b)
        *b = 3;
    return 2;
}
inline void         DockBuilderDockWindow(const char*, ImGuiID) {}
inline void         DockBuilderFinish(ImGuiID) {}
inline ImGuiWindow* FindWindowByName(const char* n) { return &imguiState.windows[n]; }
inline ImGuiWindow* GetCurrentWindow() { return imguiState.current; }
} // namespace ImGui
