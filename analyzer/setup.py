"""build the syntax-tree dumper"""
import program
print(program.tool())
