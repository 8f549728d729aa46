"""The harnesses: name -> sources, schemas compiled by joedbc, library ('core' or 'full'), extra sources of /repo, tools."""
HARNESS = {}


def harness(name, srcs, schemas=(), lib='full', extra=(), tools=()):
    HARNESS[name] = (srcs, schemas, lib, extra, tools)


harness('journal_disk', ['journal_disk.cpp'], lib='core', extra=['joedb/journal/Interpreted_File.cpp'])
harness('shared_log', ['shared_log.cpp'], lib='full')
harness('server_proto', ['server_proto.cpp'], lib='full')
harness('replica', ['replica.cpp'], lib='full')
harness('data_model', ['data_model.cpp'], schemas=('model',), lib='full')
harness('copies', ['copies.cpp'], lib='full', extra=['joedb/journal/Interpreted_File.cpp'],
        tools=('joedb_pack', 'joedb_merge', 'joedb_convert', 'joedb_logdump'))
harness('upgrade', ['upgrade.cpp'], schemas=('up1', 'up2', 'up3'), lib='full', extra=['joedb/journal/Interpreted_File.cpp'])
harness('byte_file', ['byte_file.cpp'], lib='full', extra=['joedb/journal/Portable_File.cpp'])
harness('rpc', ['rpc.cpp'], schemas=('svc',), lib='full')
