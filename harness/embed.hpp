// The AES circuit the library embeds at build time, straight from the tree.
#pragma once
#define AESF REPO_DIR "/emp-tool/circuits/files/bristol_fashion/aes_128.txt"
__asm__(
	".pushsection .data\n"
	".globl emp_tool_circuits_files_bristol_fashion_aes_128_txt\n"
	"emp_tool_circuits_files_bristol_fashion_aes_128_txt:\n"
	".incbin \"" AESF "\"\n"
	"1:\n"
	".balign 8\n"
	".globl emp_tool_circuits_files_bristol_fashion_aes_128_txt_len\n"
	"emp_tool_circuits_files_bristol_fashion_aes_128_txt_len:\n"
	".long 1b - emp_tool_circuits_files_bristol_fashion_aes_128_txt\n"
	".popsection\n");
