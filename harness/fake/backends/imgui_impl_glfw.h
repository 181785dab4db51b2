#pragma once
struct GLFWwindow;
inline bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool) { return true; }
inline void ImGui_ImplGlfw_Shutdown() {}
inline void ImGui_ImplGlfw_NewFrame() {}
